"""C12 - validity of entities matches RPM's evaluation of conditions."""
import re

from vf.core import check
from vf.gen import Gen, Item, Sec
from vf.util import accepted, open_doc

ID = "C12"
LEVEL = "exploration"
CASES = {"quick": 1500, "thorough": 30000}
RULE = """Grammar-generated spec files with deeply nested %if/%elif/%else blocks (integer, string and version expressions,
macros, build conditions, architectures, operating systems, continued lines, indentation, comments behind keywords,
conditions produced by macros, garbage in false branches) around tags, sources, patches, list entries, macro definitions
(active, commented out, multi-line) and whole sections. Every branch carries a marker; RPM's parse of the content tells
which branches it read, and the valid flags of all entities of the branch have to say the same. Afterwards macro overrides
are changed on the same object and everything is compared again. Non-trivial: at least one branch read and one skipped;
distinct by content."""
ASSUMPTIONS = ["condition macros keep one value throughout the spec", "no architecture conditions together with BuildArch, no unbalanced "
               "braces in strings of an expression (known findings)"]
REQUIRED = ["branches_read", "branches_skipped", "tags", "macro_definitions", "sources", "list_entries", "skipped_sections",
            "expr_string", "expr_version", "expr_macro", "expr_with", "expr_arch", "expr_os", "expr_continued", "expr_ternary",
            "elif_arch", "macro_condition", "garbage", "commented_macros", "overrides_changed", "overrides_mattered", "nested",
            "alternative_tags", "alternative_macros", "script_macros", "expr_undefined"]


class G12(Gen):
    def __init__(self, rng, **kw):
        super().__init__(rng, **kw)
        self.mode = "preamble"
        self.nmark = 0
        self.seen = {}
        self.bconds = []

    def note(self, what):
        self.seen[what] = self.seen.get(what, 0) + 1

    def marker(self):
        self.nmark += 1
        name = f"mk{self.nmark}q"
        if self.mode == "preamble":
            return Item("tag", [f"Provides: {name}"], True, name="Provides", comments=[], mark=name), name
        if self.mode == "list":
            return Item("slentry", [name], True, location=name, comments=[], patch=self.patch, mark=name), name
        return Item("text", [f"x {name}"], True, mark=name), name

    def cond_expr(self):
        r = self.r
        c = r.random()
        if c < 0.45:
            kw, expr, t = super().cond_expr()
            self.note("expr_arch" if "arch" in kw else "expr_os" if "os" in kw else "expr_continued" if len(expr) > 1 else "expr_plain")
            return kw, expr, t
        a, b = r.randint(0, 12), r.randint(0, 12)
        op = self.pick(["<", ">", "<=", ">=", "==", "!="])
        py = eval(f"{a} {op} {b}")
        if c < 0.55:
            self.note("expr_string")
            x, y = self.pick(["a", "b", "ab", "A", "", "0", "10", "9"]), self.pick(["a", "b", "ab", "A", "", "0", "10", "9"])
            if self.p(0.4):
                return "%if", [f'"{x}"'], bool(x)
            return "%if", [f'"{x}" {op} "{y}"'], eval(f'"{x}" {op} "{y}"')
        if c < 0.6:
            self.note("expr_version")
            return "%if", [f'v"1.{a}" {op} v"1.{b}"'], py
        if c < 0.65:
            self.note("expr_ternary")
            return "%if", [self.pick([f"{a} {op} {b} ? 1 : 0", f"({a} {op} {b}) ? 2+3 : 1-1"])], py
        if c < 0.72 and self.defined:
            self.note("expr_macro")
            n = self.pick(self.defined)[0]
            return self.pick([("%if", [f"%{{?{n}:1}}%{{!?{n}:0}}"], True), ("%if", [f"%{{!?{n}:1}}%{{?{n}:0}}"], False),
                              ("%if", [f"%{{expr:%{{?{n}:1}}+0}}"], True), ("%if", [f'"%{{{n}}}" != ""'], True),
                              ("%if", [f"%[%{{?{n}:2}} - 2]"], False), ("%if", ["%{lua:print(1)}"], True),
                              ("%if", ["%(echo 0)"], False), ("%if", [f"%{{defined {n}}} && ! %{{undefined {n}}}"], True)])
        if c < 0.8 and self.bconds:
            self.note("expr_with")
            n, v = self.pick(self.bconds)
            return self.pick([("%if", [f"%{{with {n}}}"], v), ("%if", [f"%{{without {n}}}"], not v), ("%if", [f"! %{{with {n}}}"], not v),
                              ("%if", [f"%{{with {n}}} && 1"], v)])
        if c < 0.88:
            self.note("expr_undefined")
            u = f"undef{r.randint(0, 5)}"
            return self.pick([("%if", [f"0%{{?{u}}} > 5"], False), ("%if", [f"%{{defined {u}}}"], False), ("%if", [f"%{{undefined {u}}}"], True),
                              ("%if", [f"0%{{!?{u}:1}}"], True), ("%if", [f"%{{?{u}}}%{{!?{u}:7}} == 7"], True)])
        if c < 0.94:
            self.note("expr_continued")
            return "%if", self.pick([["\\", f" {int(py)}"], [f"{int(py)} && \\", "1 && \\", "1"], [f"{a} {op}\\", f"{b}"]]), py
        return "%if", [f"{a} {op} {b}"], py

    def cond_block(self, body_fn, depth):
        g = self

        def body(d):
            items = list(body_fn(d))
            if g.p(0.15) and g.mode == "preamble" and not g.valid:
                # never looked at by RPM
                g.note("garbage")
                items.insert(g.pick([0, len(items)]), Item("text", [g.pick([
                    "this is not a tag", "%iffy 1", "%endifx", "%elsewhere", "%if", "Name", "%{undefd0 }", "%if_1 2", "%elif", "%elsif 1"])]))
            if g.p(0.1) and g.mode == "preamble":
                t = g.p(0.5)
                g.note("macro_condition")
                if g.valid:
                    mk, name = g.marker()
                    mk.branch = name
                    items += [Item("text", ["%{!?undef" + str(g.r.randint(6, 9)) + ":%if " + str(int(t)) + "}"]), mk, Item("text", ["%endif"])]
            mk, name = g.marker()
            items.insert(g.pick([0, len(items)]), mk)
            for i in items:
                if not hasattr(i, "branch"):
                    i.branch = name
            return items

        out = super().cond_block(body, depth)
        for i in out:
            if i.kind == "cond":
                s = i.lines[0].strip()
                if s in ("%else", "%endif") and self.p(0.1):
                    i.lines[0] += self.pick(["# note", "-x", " %{name}", "# %{undef0}"])
                if s.startswith("%elif ") and self.p(0.3) and len(i.lines) == 1:
                    self.note("elif_arch")
                    # its truth isn't known to the generator; nothing depends on it
                    i.lines[0] = self.pick(["%elifarch x86_64", "%elifarch s390x", "%elifos linux", "%elifos darwin", "%elifarch s390x \\\n x86_64"])
                    i.lines = i.lines[0].split("\n")
                if depth:
                    self.note("nested")
        return out

    def unit(self, depth=0, sub=False):
        c = self.r.random()
        if depth and c < 0.15 and not sub:
            n = self.fresh("")
            patch = self.p(0.4)
            nm = f"{'Patch' if patch else 'Source'}{1000 + int(n)}"
            return [self.tag(nm, self.location(patch), plain=True, source=True, patch=patch)]
        if not depth and c < 0.08 and not sub:
            n = self.fresh("bc")
            v = self.p(0.5)
            if self.valid:
                self.bconds.append((n, v))
            return [Item("text", [f"%bcond_with{'out' if v else ''} {n}"])]
        if depth and c < 0.22 and self.mode == "preamble":
            n = self.pick(["alt1", "alt2"])
            return [Item("md", [f"%global {n} {self.fresh('v')}"], name=n, alt=True)]
        if depth and c < 0.27 and not sub:
            return [self.tag("Requires", self.fresh("altreq"), plain=True, alt=True)]
        out = super().unit(depth, sub)
        while any("%undefine" in ln for i in out for ln in i.lines):
            out = super().unit(depth, sub)
        return out

    def body_lines(self, name):
        # sections get reordered; conditions refer to macros defined in preambles only
        self.mode = "script"
        saved = list(self.defined), list(self.nums)
        try:
            return super().body_lines(name)
        finally:
            self.mode = "preamble"
            self.defined, self.nums = saved

    def script_line(self, name):
        if self.p(0.3):
            return self.md()
        return super().script_line(name)

    def list_section(self, patch):
        self.mode, self.patch = "list", patch
        try:
            items = []
            for _ in range(self.r.randint(1, 4)):
                if self.p(0.6):
                    items += self.cond_block(self._entries, self.r.randint(0, 2))
                else:
                    items += self._entries(3)
            return Sec("patchlist" if patch else "sourcelist", "", self.header("patchlist" if patch else "sourcelist"), items)
        finally:
            self.mode = "preamble"

    def _entries(self, depth):
        out = []
        for _ in range(self.r.randint(0, 3)):
            if depth < 3 and self.p(0.25):
                out += self.cond_block(self._entries, depth + 1)
            elif self.p(0.12):
                n = self.fresh("lm")
                out.append(Item("md", [f"%global {n} x"], name=n))
            else:
                loc = f"{self.fresh('le')}.tgz"
                out.append(Item("slentry", [loc], True, location=loc, comments=[], patch=self.patch))
        return out


def parsed_lines(ans):
    return ans["parsed"].split("\n")


def compare(ctx, spec, doc, ans, text):
    """Returns the set of branches that were read."""
    parsed = ans["parsed"]
    read = set(re.findall(r"mk\d+q", parsed))
    head = set()
    for ln in parsed.split("\n"):
        w = ln.split()
        if w and w[0].lower() == "%package":
            head.add(" ".join(w[1:]))

    def expected(sec, it):
        b = getattr(it, "branch", None)
        if b is not None:
            return b in read
        if sec.name in ("package", "description") and sec.optstr:
            return sec.optstr in head
        if sec.cond_marker:
            return sec.cond_marker in read
        return True

    detail = dict(spec=text, macros=spec.macros)
    for s in doc.secs:
        if s.name != "package":
            continue
        items = [i for i in s.items if i.kind == "tag"]
        with spec.sections() as sections, spec.tags(sections[doc.secs.index(s)]) as tags:
            got = [(t.name, t.valid) for t in tags]
            want = [(i.name, expected(s, i)) for i in items]
            check(got == want, "validity of tags", first=next(((g, w) for g, w in zip(got, want) if g != w), None), got=got, want=want, **detail)
            ctx.count("tags", len(got))
            ctx.count("skipped_sections", s.header is not None and s.optstr not in head)
            # lookup by name prefers entities RPM has seen
            for n in ("Requires", "Provides"):
                vs = [i for i, t in enumerate(tags) if t.normalized_name == n]
                if vs:
                    good = [i for i in vs if tags[i].valid]
                    check(tags.find(n) == (good or vs)[0], "lookup by name", name=n, got=tags.find(n), want=(good or vs)[0], **detail)
                    ctx.count("alternative_tags", len(vs) > 1 and vs[0] != (good or vs)[0])
    with spec.macro_definitions() as mds:
        items = [(s, i) for s in doc.secs for i in s.items if i.kind == "md"]
        got = [(m.name, m.valid) for m in mds]
        want = [(i.name, expected(s, i)) for s, i in items]
        check(got == want, "validity of macro definitions", first=next(((g, w) for g, w in zip(got, want) if g != w), None), got=got, want=want, **detail)
        ctx.count("macro_definitions", len(got))
        ctx.count("commented_macros", sum(m.commented_out for m in mds))
        ctx.count("script_macros", sum(s.name != "package" for s, _ in items))
        for n in {i.name for _, i in items}:
            vs = [k for k, (_, i) in enumerate(items) if i.name == n]
            good = [k for k in vs if mds[k].valid]
            check(mds.find(n) == (good or vs)[0], "lookup by name", name=n, **detail)
            ctx.count("alternative_macros", len(vs) > 1 and bool(good) and vs[0] != good[0])
    for patch, view in ((False, spec.sources()), (True, spec.patches())):
        tags = [(s, i) for s in doc.secs if s.header is None for i in s.items if i.kind == "tag" and i.info.get("source") and i.patch == patch]
        ents = [(s, i) for s in doc.secs for i in s.items if i.kind == "slentry" and i.patch == patch]
        with view as v:
            got = [(x.location, x.valid) for x in v]
            want = [(i.value, expected(s, i)) for s, i in tags] + [(i.location, expected(s, i)) for s, i in ents]
            check(got == want, "validity of sources", patch=patch, first=next(((g, w) for g, w in zip(got, want) if g != w), None), got=got, want=want, **detail)
            ctx.count("sources", len(tags))
            ctx.count("list_entries", len(ents))
    all_marks = set(re.findall(r"mk\d+q", text))
    ctx.count("branches_read", len(read))
    ctx.count("branches_skipped", len(all_marks - read))
    return read, all_marks


def run_case(ctx):
    rng = ctx.rng
    g = G12(rng, conds=rng.choice([0.6, 0.9]), wrapped=0.1, subpackages=2, sec_conds=0.6, changelog=0, lists=0.3, prep=False, garbage=0.1,
            extra_tags=rng.choice([3, 6, 10]), desc_trick=0, dup_mds=0.05, exclude_tags=("BuildArch",))
    doc = g.doc()
    for s in doc.secs:
        s.cond_marker = None
    # whole sections in a branch; nothing is defined for sure at that point
    g.defined, g.nums = [], []
    for s in list(doc.secs):
        k = doc.secs.index(s)
        if s.header is None or s.name == "package" or k == len(doc.secs) - 1 or doc.secs[k - 1].name == "package" or rng.random() > 0.25:
            continue
        if s.name == "description":
            continue
        g.nmark += 1
        m = f"mk{g.nmark}q"
        kw, expr, _ = g.cond_expr()
        doc.secs[k - 1].items.append(Item("cond", [f"{kw} {expr[0]}"] + expr[1:]))
        body = Item("slentry", [m], True, location=m, comments=[], patch=s.name == "patchlist") if s.name in ("sourcelist", "patchlist") \
            else Item("text", [f"x {m}"])
        s.items.insert(rng.randint(0, 0), body)
        s.items.append(Item("cond", ["%endif"]))
        s.cond_marker = m
    if doc.lines()[-1] != "":
        doc.trailing_newline = True
    text = doc.text()
    ans = accepted(ctx, text, doc.macros, ctx.tmp / "d", want=("parsed",))
    spec, path, _ = open_doc(ctx, doc, oracle=ans)
    read, marks = compare(ctx, spec, doc, ans, text)
    for k, n in g.seen.items():
        ctx.count(k, n)
    # other overrides
    for _ in range(rng.choice([0, 1, 2])):
        macros = [("fedora", str(rng.randint(30, 45)))] if rng.random() < 0.6 else []
        for i in range(6):
            if rng.random() < 0.25:
                macros.append((f"undef{i}", str(rng.randint(0, 9))))
        if rng.random() < 0.2:
            macros.append(("_target_cpu", rng.choice(["aarch64", "s390x", "ppc64le"])))
        ans = ctx.oracle.ask(text, macros, ctx.tmp / "d", want=("parsed",))
        if not ans["ok"]:
            continue
        spec.macros[:] = macros
        ctx.log("macros", macros)
        read2, _ = compare(ctx, spec, doc, ans, text)
        ctx.count("overrides_changed")
        ctx.count("overrides_mattered", read2 != read)
        check(str(spec) == text, "content changed")
    if read and marks - read:
        ctx.nontrivial(text)


MIN = "Name: a\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n"


def differs(ctx, body, macros=None):
    from specfile import Specfile

    text = MIN + body + "%description\n"
    ans = ctx.oracle.ask(text, macros, want=("parsed",))
    assert ans["ok"], ans
    p = ctx.tmp / "t.spec"
    p.write_text(text)
    spec = Specfile(p, macros=macros)
    got = [t.value for n in spec.sections().content if n.normalized_name == "package"
           for t in spec.tags(n.id).content if t.valid and t.value.startswith("mk")]
    want = re.findall(r"mk\d+q", ans["parsed"])
    return None if got == want else (got, want)


def _mk(body, macros=None):
    def run(ctx):
        d = differs(ctx, body, macros)
        check(d is None, "validity of tags", got_and_want=d, spec=body)

    return run


def fixed_cases():
    P = "Provides: mk{}q\n".format
    return [
        ("string-zero", _mk('%if "0"\n' + P(1) + "%endif\n")),
        ("section-in-branch", _mk("%if 0\n%package x\nSummary: s\n" + P(1) + "%description x\n%endif\n%package y\nSummary: s\n" + P(2) +
                                  "%description y\n")),
        ("endif-in-skipped-macro", _mk("%if 0\n" + P(1) + "%global a \\\n%endif\n" + P(2))),
        ("keyword-with-comment", _mk("%if 0\n" + P(1) + "%else# x\n" + P(2) + "%endif# y\n" + P(3))),
        ("bare-if", _mk("%if 0\n%if\n" + P(1) + "%endif\n" + P(2))),
        ("continued-if", _mk("%if \\\n1\n" + P(1) + "%else\n" + P(2) + "%endif\n%if 0\n%if \\\n1\n" + P(3) + "%endif\n" + P(4) + "%endif\n")),
        ("elif-after-true", _mk("%if 1\n" + P(1) + "%elif 1\n" + P(2) + "%else\n" + P(3) + "%endif\n")),
        ("nested-false", _mk("%if 0\n%if 1\n" + P(1) + "%else\n" + P(2) + "%endif\n" + P(3) + "%endif\n")),
        ("override", _mk("%if 0%{?x}\n" + P(1) + "%else\n" + P(2) + "%endif\n", [("x", "1")])),
    ]


def findings():
    P = "Provides: mk{}q\n".format
    return [
        ("buildarch", lambda ctx: differs(ctx, "BuildArch: noarch\n%ifarch x86_64\n" + P(1) + "%endif\n")),
        ("unbalanced-brace", lambda ctx: differs(ctx, '%if "}" == "}"\n' + P(1) + "%endif\n")),
        ("escaped-macro", lambda ctx: differs(ctx, '%if "%%{name}" == "a"\n' + P(1) + "%endif\n")),
        ("continued-endif", lambda ctx: differs(ctx, "%if 0\n" + P(1) + "%endif \\\n" + P(2) + P(3))),
    ]
