"""C18 - updating a tag or version yields the requested value, preserving macros."""
import re

from vf.core import Skip, check
from vf.util import line_diff, scratch_spec

ID = "C18"
LEVEL = "exploration"
CASES = {"quick": 3000, "thorough": 30000}
RULE = """Generated preambles: up to seven macros (global and define, plain, conditional, negated, nested references, shell and
expression expansions, commented out in several styles, redefined before or after their use, in true and false branches,
parametric) and tags (Version, Release, Epoch, Summary, URL, License, Source0, tags in conditional branches) whose values mix
literals, macros and other tags, then a history of 1-4 updates of random tags to plain values: similar to the current one,
with more or fewer components, completely different or the current one, with default, empty and custom protection patterns;
and version updates with several pre-release patterns (optional, empty, several delimiters), with and without a pre-release
macro. Oracle: a fresh RPM process on the new content gives the value of the tag; line-by-line comparison gives the lines that
changed. Non-trivial: the updated value contains a macro reference; distinct by content and request."""
ASSUMPTIONS = ["requested values are plain: no percent sign, no surrounding whitespace, acceptable to RPM for that tag",
               "commenting the pre-release macro in or out doesn't make RPM reject the spec"]
REQUIRED = ["updates", "literal_written", "preserved_reference", "macro_updated", "tag_updated", "protected_checked", "custom_protection", "flipped",
            "prerelease", "final_release", "macro_commented_out", "macro_commented_in", "left_commented_out", "histories", "conditional_tags", "redefined", "unchanged", "lines_compared", "autosave", "structured", "superseded", "structured_in", "structured_out", "structured_url", "styles_checked"]

LIT = ["1", "2", "10", "0", "rc1", "beta2", "2023", "abc", "3a", "1.2", "a+b"]
NAMES = ["major", "minor", "patchlevel", "prever", "upver", "commit", "ver", "rc", "sub_0", "Foo", "_x", "base_ver", "pkgname", "n1"]


class Doc:
    def __init__(self, r):
        self.r = r
        self.lines, self.kinds = [], []
        self.refs = False
        self.build()

    def add(self, line, kind):
        self.lines.append(line)
        self.kinds.append(kind)

    def ref(self, n):
        return self.r.choice([f"%{{{n}}}"] * 3 + [f"%{{?{n}}}", f"%{n}", f"%{{?{n}:%{{{n}}}}}", f"%{{!?{n}:0}}", f"%?{n}"])

    def tagref(self):
        return self.r.choice(["%{version}", "%{version}", "%{VERSION}", "%version", "%{name}", "%{NAME}", "%{?epoch}", "%{release}"])

    def value(self, av, k=3, tags=False, sep=(".", ".", "~", "_", "")):
        r = self.r
        out = ""
        for i in range(r.randint(1, k)):
            if i:
                out += r.choice(sep)
            p = r.random()
            if av and p < 0.55:
                n = r.choice(av)
                q = r.random()
                if q < 0.10:
                    out += f"%{{?{n}:~%{{{n}}}}}"
                elif q < 0.15:
                    out += f"%{{!?{n}:.{r.choice(LIT)}}}"
                elif q < 0.19:
                    out += f"%{{?{n}:{r.choice(LIT)}}}"
                elif q < 0.22 and len(av) > 1:
                    out += f"%{{?{n}:.%{{{r.choice(av)}}}.{r.choice(LIT)}}}"
                else:
                    out += self.ref(n)
            elif tags and p < 0.8:
                out += self.tagref()
            elif p < 0.6:
                out += r.choice(["%(echo 7)", "%[1+2]", "%{lua:print(5)}", "%{expand:8}"])
            else:
                out += r.choice(LIT)
        return out

    def macro(self, n, defs, body=None):
        r = self.r
        kw = r.choice(["%global", "%define"])
        com = r.choice(["%dnl ", "%dnl  ", "#", "# "]) if r.random() < 0.14 else ""
        if com == "#":
            line = f"#{kw[1:]} {n} "
        else:
            line = com.replace("# ", "#%") + f"{kw} {n}" + r.choice([" ", " ", "  ", "\t"])
        if body is None:
            body = self.value(defs, 2) if r.random() < 0.4 else r.choice(LIT)
            plain = False
        else:
            plain = True
        if r.random() < 0.03 and not plain:
            body = "%{nil}"
        self.add(line + body, "m:" + n)

    def build(self):
        r = self.r
        defs = []
        for n in r.sample(NAMES, r.choice([0, 1, 2, 3, 4, 5, 6])):
            p = r.random()
            if p < 0.08:
                self.add(f"%if {r.choice([0, 1])}", "o")
                self.macro(n, defs)
                self.add("%else", "o")
                self.macro(n, defs)
                self.add("%endif", "o")
            elif p < 0.13:
                self.add(f"%define {n}p() p", "m:" + n + "p()")
                self.macro(n, defs)
            else:
                self.macro(n, defs)
            if r.random() < 0.1:
                self.macro(n, defs)
            defs.append(n)
        self.defs = defs
        # the documented idiom of a macro that controls pre-releases
        self.prerel = r.random() < 0.4
        if self.prerel:
            self.macro("prerel", [], r.choice(["rc1", "beta2", "b3"]))
        self.sfx = r.choice(["%{?prerel:~%{prerel}}", "%{?prerel:~%prerel}", "%{?prerel:~}%{?prerel}"]) if self.prerel else ""
        tags = [("Name", "test" if r.random() < 0.8 or not defs else "test%{" + r.choice(defs) + "}"), ("Version", self.value(defs) + self.sfx),
                ("Release", r.choice(["1%{?dist}", "1", "%{rc}" if "rc" in defs else "2"])), ("Summary", self.value(defs, 3, True, (" ", ".", "-")) + " x"), ("License", "MIT"),
                ("URL", "http://x.org/" + self.value(defs, 3, True)),
                ("Source0", r.choice(["http://x/%{name}-%{version}.tar.gz", "%{name}-" + self.value(defs, 3, True) + ".tar.gz", self.value(defs, 2) + "$x-(1).tar.gz"]))]
        if r.random() < 0.25:
            tags.insert(r.choice([1, 2]), ("Epoch", "1"))
        if r.random() < 0.2:
            r.shuffle(tags)
        self.cond = r.random() < 0.15
        for t, v in tags:
            if t in ("Version", "URL") and self.cond:
                self.add(f"%if {r.choice(['0', '1', '%{?ver:1}%{!?ver:0}'])}", "o")
                self.add(f"{t}: {v}", "t:" + t)
                self.add("%else", "o")
                self.add(f"{t}: {self.value(defs)}{self.sfx if t == 'Version' else ''}", "t:" + t)
                self.add("%endif", "o")
                continue
            if r.random() < 0.08:
                self.add("# comment %%{version}", "o")
            self.add(r.choice([t, t, t, t.lower(), t.upper()]) + r.choice([": ", ":   ", ":\t"]) + v, "t:" + t)
            if defs and r.random() < 0.06:
                self.macro(r.choice(defs), [])
                self.redefined = True
        for ln in ("%description", "d %{version}", "%prep", "echo 1.2 rc1 %{?ver}", "%files", "%changelog", "* Tue May 04 2021 x <a@b> - 1-1", "- 1.2"):
            self.add(ln, "o")

    redefined = False

    def text(self):
        return "\n".join(self.lines) + "\n"


TAGS = ["Version"] * 6 + ["Summary", "URL", "Source0", "Release", "License"]


def tag_value(ans, tag):
    if tag == "Source0":
        return ans["exprs"][0]
    if tag == "Epoch":
        return ans["exprs"][1]
    return ans["header"][tag.upper()]


def ask(ctx, text):
    return ctx.oracle.ask(text, [], ctx.tmp / "d", want=("header",), exprs=["%{SOURCEURL0}", "%{?epoch}"])


def request(r, tag, cur):
    def ver():
        p = r.random()
        if p < 0.45 and re.fullmatch(r"[\w.~^+]+", cur):
            return re.sub(r"\d+", lambda m: str(int(m.group()) + r.choice([0, 1, 1, 7])), cur)
        return ".".join(r.choice(["1", "2", "3", "10", "5rc1", "2023"]) for _ in range(r.randint(1, 4))) + r.choice(["", "", "~rc2", "~beta3", "^git1", "+x", "_y"])

    if r.random() < 0.05:
        return cur
    if tag in ("Version", "Release"):
        return ver()
    p = r.random()
    if p < 0.6:
        # numbers inside the current value
        return re.sub(r"\d+", lambda m: str(int(m.group()) + r.choice([0, 1, 1, 7])), cur) if re.search(r"\d", cur) else cur + "1"
    if tag == "Summary":
        return r.choice([ver() + " y", "A $tool (v2) \\d+ {x}", "x", cur + " and more"])
    if tag == "URL":
        return r.choice(["http://y.org/", "https://x.org/a?b=$c&d={1}/"]) + ver()
    if tag == "License":
        return r.choice(["GPL-2.0-only", "MIT AND BSD", ver()])
    return r.choice(["http://x/", "", "https://example.org/a$b/"]) + "test-" + ver() + ".tar.gz"


def unchanged_part(kind, line):
    """Part of a line that may not change."""
    if kind.startswith("t:"):
        m = re.match(r"^\s*(\w+\s*:\s*)", line)
    else:
        m = re.match(r"^\s*(?:%dnl\b\s*|#\s*%?)?%?((?:global|define)\s+\S+\s+)", line)
    return m.group(1) if m else None


def compare(ctx, doc, old, new, protected, tag, hist, macro=None):
    """Lines that changed."""
    a, b = old.split("\n"), new.split("\n")
    check(len(a) == len(b), "update added or removed lines", diff=line_diff(a, b), history=hist)
    changed = []
    for i, (x, y) in enumerate(zip(a, b)):
        ctx.count("lines_compared")
        if x == y:
            continue
        kind = doc.kinds[i] if i < len(doc.kinds) else "o"
        check(kind != "o", "update changed a line that is neither a tag nor a macro definition", old=x, new=y, history=hist)
        ux, uy = unchanged_part(kind, x), unchanged_part(kind, y)
        check(ux is not None and ux == uy, "update changed more than a value", old=x, new=y, history=hist)
        name = kind[2:]
        if kind != "t:" + tag and name != macro:
            check(not re.match(protected or "(?!)", name, re.I), "update changed a protected entity", old=x, new=y, protected=protected, history=hist)
        changed.append((i, kind))
    if protected:
        ctx.count("protected_checked")
    return changed


def structured(ctx):
    """Requests that fit the structure of the current value: references have to be preserved."""
    from specfile import Specfile

    r = ctx.rng
    names = r.sample([n for n in NAMES if n not in ("sub_0", "pkgname")], 6)
    head, parts, n = [], [], 0
    vals = {}

    def num():
        return str(r.choice([0, 1, 2, 7, 10, 2023]))

    def leaf():
        nm = names.pop()
        vals[nm] = num()
        while r.random() < 0.2:
            # superseded by the following definition
            head.append([f"{r.choice(['%global', '%define'])} {nm} {num()}", None])
            ctx.count("superseded")
        head.append([f"{r.choice(['%global', '%define'])} {nm} ", nm])
        return nm

    def ref(nm):
        return r.choice([f"%{{{nm}}}", f"%{{{nm}}}", f"%{nm}", f"%{{?{nm}}}", f"%{{?{nm}:%{{{nm}}}}}"])

    comps = []  # leaves in the order of components of the version, None for literals
    value = []
    if r.random() < 0.35:
        # a macro composed of other macros
        a, b = leaf(), leaf()
        g = names.pop()
        head.append([f"%define {g} {ref(a)}.{ref(b)}", None])
        value.append(ref(g))
        comps += [(a, ""), (b, "")]
    for _ in range(r.randint(0 if value else 1, 3)):
        if value and comps and comps[-1][0] is not None and r.random() < 0.35:
            # expansions of these can't change
            const = r.choice([("", ""), ("", ""), ("%(echo x)", "x"), ("%{lua:print('y')}", "y")])
            value.append((None, const[0]))
            comps.append((None, const[1]))
        else:
            a = leaf()
            value.append(ref(a))
            comps.append((a, ""))
    # none: not used, on: enabled from the start, in: has to be enabled, out: has to be disabled
    pre = r.choice(["none", "none", "on", "in", "out"])
    lead = ""
    if pre == "out" and comps[-1][0] is None:
        # two literals next to each other can be divided in several ways
        a = leaf()
        value.append(ref(a))
        comps.append((a, ""))
    if pre != "none":
        lead = {"in": r.choice(["%dnl ", "#", "# %", "%dnl note "])}.get(pre, "")
        head.append([r.choice(["%global", "%define"])[1 if lead == "#" else 0:] + " prerel ", "prerel"])
        vals["prerel"] = "rc1"
    if r.random() < 0.5:
        # other macros in between
        head.insert(r.randint(0, len(head)), ["%global unrelated 1.2.3", None])
    lits = [num() for c, _ in comps if c is None]
    tail = num()
    suffix = {"none": "", "on": "%{?prerel:~%{prerel}}", "in": r.choice(["%{?prerel:~%{prerel}}", "%{?prerel:~%prerel}"])}.get(pre)
    vref = r.choice(["%{version}", "%{VERSION}", "%version", "%{?version}"])
    upre = r.choice(["x", "y1"])

    def text(vals, lits, tail, upre, lead):
        it = iter(lits)
        ver = ".".join(v if isinstance(v, str) else next(it) + v[1] for v in value) + (suffix if suffix is not None else "%{!?prerel:." + tail + "}")
        lines = [(lead if k == "prerel" else "") + p + (vals[k] if k else "") for p, k in head]
        # the tag comes after the macros
        return "\n".join(lines + ["Name: test", f"Version: {ver}", "Release: 1", "Summary: 1.2.3", "License: MIT", f"URL: {upre}/{vref}",
                                  "Source0: http://x/%{name}-%{version}.tar.gz", "%description", "1.2"]) + "\n"

    def norm(t):
        # how a definition is commented out isn't specified here
        return re.sub(r"^ *((?:%dnl|#).*?)?%?%?((?:global|define) prerel )", lambda m: ("#" if m.group(1) else "") + m.group(2), t, flags=re.M)

    old = text(vals, lits, tail, upre, lead)
    ctx.log("spec", repr(old))
    spec = Specfile(scratch_spec(ctx, old))
    (ctx.tmp / "d").mkdir(exist_ok=True)
    for _ in range(r.choice([1, 2])):
        new = [num() + r.choice(["", "", "a"]) for _ in comps]
        req = ".".join(n + c[1] for n, c in zip(new, comps))
        vals = dict(vals)
        lits = []
        for (c, _), v in zip(comps, new):
            if c is None:
                lits.append(v)
            else:
                vals[c] = v
        if pre in ("on", "in"):
            vals["prerel"] = f"beta{r.randint(1, 9)}"
            req += "~" + vals["prerel"]
            ctx.count("structured_in", lead != "")
            lead = ""
        elif pre == "out":
            tail = num()
            req += "." + tail
            ctx.count("structured_out", lead == "")
            lead = "#"
        tag = "Version"
        k = r.random()
        want_value = req
        if k < 0.4:
            ctx.log("update", req)
            spec.update_tag(tag, req)
        elif k < 0.75:
            ctx.log("update version", req)
            spec.update_version(req)
        else:
            tag = "URL"
            upre = r.choice(["x", "z", "zz2"])
            want_value = f"{upre}/{req}"
            ctx.log("update URL", want_value)
            spec.update_tag(r.choice(["URL", "url"]), want_value)
            ctx.count("structured_url")
        want = text(vals, lits, tail, upre, lead)
        check(norm(str(spec)) == norm(want), "references weren't preserved although the requested value fits the current one",
              requested=want_value, diff=line_diff(norm(want).split("\n"), norm(str(spec)).split("\n")), history=ctx.trace)
        ans = ask(ctx, str(spec))
        check(ans["ok"] and tag_value(ans, tag) == want_value, "tag doesn't expand to the requested value", requested=want_value, history=ctx.trace)
        ctx.count("updates")
        ctx.count("structured")
    ctx.nontrivial(old, req)


def run_case(ctx):
    from specfile import Specfile

    r = ctx.rng
    if r.random() < 0.25:
        return structured(ctx)
    doc = Doc(r)
    text = doc.text()
    (ctx.tmp / "d").mkdir(exist_ok=True)
    ans = ask(ctx, text)
    if not ans["ok"]:
        raise Skip("content rejected by RPM")
    autosave = r.random() < 0.2
    path = scratch_spec(ctx, text)
    spec = Specfile(path, autosave=autosave)
    ctx.log("spec", repr(text))
    n = r.choice([1, 1, 2, 3, 4])
    key = [text]
    nontrivial = False
    for _ in range(n):
        old = str(spec)
        tag = r.choice(TAGS)
        cur = tag_value(ans, tag)
        if cur is None or "%" in cur:
            raise Skip("value of the tag isn't completely expanded")
        req = request(r, tag, cur)
        if not req or "%" in req or req != req.strip():
            continue
        if tag in ("Version", "Release") and not re.fullmatch(r"[\w.~^+]+", req) or tag == "URL" and " " in req:
            continue
        kw = {}
        protected = ".*name"
        prmacro = None
        p = r.random()
        if p < 0.15:
            protected = kw["protected_entities"] = r.choice(["major|minor", "ver", ".*ver.*", "(?!version).*", "MAJOR", "name|u", "m", "[a-u]", "ma|mi|b"])
            ctx.count("custom_protection")
        elif p < 0.25:
            protected = kw["protected_entities"] = ""
        spelled = r.choice([tag, tag, tag.lower(), tag.upper()]) if tag != "Source0" else r.choice([tag, "source0"])
        if tag == "Version" and not kw and r.random() < 0.4:
            expected, prmacro = version_update(ctx, doc, spec, req, cur)
            if expected is None:
                raise Skip("request can't be fulfilled")
            req = expected
            hist = ctx.trace
        else:
            ctx.log("update_tag", spelled, repr(req), kw)
            hist = ctx.trace
            spec.update_tag(spelled, req, **kw)
        new = str(spec)
        ans = ask(ctx, new)
        if not ans["ok"]:
            # is there any way to fulfil the request? setting the value literally has to work
            lit = literal(ctx, old, tag, req)
            if not lit["ok"]:
                raise Skip("requested value not acceptable to RPM")
            check(False, "RPM rejects the content after the update", rpm=ans["stderr"], old=old, new=new, history=hist)
        got = tag_value(ans, tag)
        if got != req:
            lit = literal(ctx, old, tag, req)
            if not lit["ok"] or tag_value(lit, tag) != req:
                raise Skip("requested value not acceptable to RPM")
        check(got == req, "tag doesn't expand to the requested value", tag=tag, got=got, requested=req, old=old, new=new, history=hist)
        changed = compare(ctx, doc, old, new, protected, tag, hist, prmacro)
        if autosave:
            check(path.read_text() == new, "update wasn't saved", history=hist)
            ctx.count("autosave")
        ctx.count("updates")
        tl = [i for i, k in enumerate(doc.kinds) if k == "t:" + tag]
        oldl, newl = old.split("\n"), new.split("\n")
        if any("%" in oldl[i] for i in tl):
            nontrivial = True
        if any(i in tl for i, _ in changed) and all("%" not in newl[i] for i, _ in changed if i in tl):
            ctx.count("literal_written")
        if any("%" in newl[i] for i in tl) and changed:
            ctx.count("preserved_reference")
        ctx.count("macro_updated", any(k.startswith("m:") for _, k in changed))
        ctx.count("tag_updated", any(k.startswith("t:") and i not in tl for i, k in changed))
        ctx.count("flipped", any(k.startswith("m:") and (re.match(r"\s*(%dnl|#)", oldl[i]) is None) != (re.match(r"\s*(%dnl|#)", newl[i]) is None) for i, k in changed))
        ctx.count("unchanged", not changed)
        key.append((tag, req, str(kw)))
    ctx.count("histories", len(key) > 2)
    ctx.count("conditional_tags", doc.cond)
    ctx.count("redefined", doc.redefined)
    if nontrivial and len(key) > 1:
        ctx.nontrivial(tuple(key))


def literal(ctx, old, tag, req):
    """RPM's view of the content with the value set literally in each line of the tag."""
    out = []
    for ln in old.split("\n"):
        m = re.match(r"^\s*(\w+\s*:\s*)", ln)
        if m and m.group(1).split(":")[0].strip().lower() == tag.lower():
            ln = m.group(1) + req
        out.append(ln)
    return ask(ctx, "\n".join(out))


DELIM = r"([.\-_~^]?)"
PATTERNS = [(r"([.\-_~^]?)(?:rc|beta|alpha|pre)\.?\d*", ["", ".", "-", "_", "~", "^"], ["rc1", "beta2", "alpha", "RC3", "pre.4"]),
            (r"(-)rc\d+", ["-"], ["rc1", "RC10"]),
            (r"([.-])?(a|b|rc)\d+", ["", ".", "-"], ["a1", "b2", "rc3"]),
            (r"()(?:a|b|rc)\d+", [""], ["a1", "b2", "rc3"]),
            (r"([.\-_]?)(?:dev|post)(\d+)", ["", ".", "-", "_"], ["dev1", "DEV2"]),
            (r"([.\-]?)rc\d+|([.\-]?)nothing", ["", ".", "-"], ["rc1"]),
            (r"\d([.\-_]?)rc\d+", ["", ".", "-", "_"], ["rc1", "RC2"])]


def version_update(ctx, doc, spec, req, cur):
    """Updates version with pre-release handling; returns the version to expect."""
    import rpm

    r = ctx.rng
    pattern, delims, sufs = r.choice(PATTERNS)
    base = re.sub(r"[~^+].*$", "", req)
    if not re.fullmatch(r"\d+(\.\d+)*", base):
        base = r.choice(["1.2", "2.0.1", "7", "0.1.3"])
    pre = r.random() < 0.6
    suffix = r.choice(sufs)
    delim = r.choice(delims)
    version = base + (delim + suffix if pre else "")
    want = base + "~" + suffix if pre else base
    macro = None
    if doc.prerel and r.random() < 0.8:
        macro = "prerel"
    elif doc.defs and r.random() < 0.4:
        macro = r.choice(doc.defs)
    elif r.random() < 0.1:
        macro = "nosuchmacro"
    kw = {}
    if macro:
        kw["prerelease_suffix_macro"] = macro
    if r.random() < 0.3:
        from specfile.macro_definitions import CommentOutStyle

        kw["comment_out_style"] = r.choice(list(CommentOutStyle))
    ctx.log("update_version", version, pattern, kw)
    before = str(spec).split("\n")
    idx = [i for i, k in enumerate(doc.kinds) if k == "m:" + (macro or "")]
    if idx:
        # commenting the macro in or out can break tags, the version included
        plain = list(before)
        for i in idx:
            plain[i] = re.sub(r"^\s*(%dnl\s*|#\s*%?|%)?%?", "%", plain[i]) if pre else "# " + plain[i].replace("%", "%%")
        if not ask(ctx, "\n".join(plain))["ok"] or not literal(ctx, "\n".join(plain), "Version", want)["ok"]:
            return None, None
    spec.update_version(version, pattern, **kw)
    if pre:
        check(rpm.labelCompare((None, want, None), (None, base, None)) < 0, "harness: wrong expectation")
        ctx.count("prerelease")
    else:
        ctx.count("final_release")
    if macro == "prerel":
        after = str(spec).split("\n")
        commented = re.match(r"\s*(%dnl\b|#)", after[idx[0]]) is not None
        was = re.match(r"\s*(%dnl\b|#)", before[idx[0]]) is not None
        if pre and was and not commented:
            ctx.count("macro_commented_in")
        if not pre and commented and not was:
            ctx.count("macro_commented_out")
            # in the requested style
            style = kw.get("comment_out_style")
            want_style = {"HASH": r"\s*#(global|define)\b", "OTHER": r"\s*#.*%%(global|define)\b"}.get(style.name if style else "DNL", r"\s*%dnl\b")
            if not any(re.match(r"\s*(%dnl|#)", before[i]) for i in idx):
                check(re.match(want_style, after[idx[0]]), "pre-release macro is commented out in another style", style=str(style), line=after[idx[0]], history=ctx.trace)
                ctx.count("styles_checked")
        if not pre and commented and was:
            mark = [re.match(r"\s*(%dnl\b|#)\s*%{0,2}", x[idx[0]])[0] for x in (before, after)]
            check(mark[0] == mark[1], "macro that is already commented out was changed", line=after[idx[0]], before=before[idx[0]], history=ctx.trace)
            ctx.count("left_commented_out")
        check(commented == (not pre), "pre-release macro isn't commented in or out accordingly", version=version, line=after[idx[0]], before=before[idx[0]], history=ctx.trace)
    return want, macro


# ---------------------------------------------------------------------------------------------------
def _spec(ctx, text):
    from specfile import Specfile

    return Specfile(scratch_spec(ctx, text))


REST = "Release: 1\nSummary: s\nLicense: MIT\n%description\n"


def _check(ctx, text, tag, req, **kw):
    s = _spec(ctx, text)
    s.update_tag(tag, req, **kw)
    (ctx.tmp / "d").mkdir(exist_ok=True)
    a = ask(ctx, str(s))
    check(a["ok"] and tag_value(a, tag) == req, "tag doesn't expand to the requested value", tag=tag, requested=req, got=a["ok"] and tag_value(a, tag), old=text, new=str(s))
    return s


def f_conflict(ctx):
    _check(ctx, "%global a 1\n%global b %{a}\nName: t\nVersion: %{a}.%{b}\n" + REST, "Version", "2.3")
    _check(ctx, "%define minor abc_rc1\n%global pl %minor\nName: t\nVersion: %{minor}%{?pl:~%{pl}}\n" + REST, "Version", "abc_rc2~abc_rc8")


def f_negated(ctx):
    _check(ctx, "%define ver 100\nName: t\nVersion: %{!?ver:.beta2}.beta2.%{ver}\n" + REST, "Version", ".beta3.101")


def f_breaks_other(ctx):
    _check(ctx, "%global major 2023\nName: t-%{major}\nVersion: %{?major}\n" + REST, "Version", "10.5~rc2")


def f_preserve(ctx):
    """What can be preserved is preserved."""
    s = _check(ctx, "%global maj 1\n%global min 2\nName: t\nVersion: %{maj}.%{min}.3\n" + REST, "Version", "4.5.6")
    check(str(s).startswith("%global maj 4\n%global min 5\nName: t\nVersion: %{maj}.%{min}.6\n"), "substitutions weren't preserved", got=str(s))
    s = _check(ctx, "%global base 1.0\n%global pre rc1\nName: t\nVersion: %{base}%{?pre:~%{pre}}\n" + REST, "Version", "1.1~rc2")
    check(str(s).startswith("%global base 1.1\n%global pre rc2\nName: t\nVersion: %{base}%{?pre:~%{pre}}\n"), "substitutions weren't preserved", got=str(s))
    s = _check(ctx, "Name: t\nVersion: 1\nSource0: http://x/%{name}-%{version}\n" + REST, "Source0", "http://x/t-2")
    check(str(s).startswith("Name: t\nVersion: 2\nSource0: http://x/%{name}-%{version}\n"), "substitutions weren't preserved", got=str(s))
    s = _check(ctx, "Name: t\nVersion: 1\nSource0: http://x/%{name}-%{version}.tar.gz\n" + REST, "Source0", "http://y/t-2.tar.gz", protected_entities="version")
    check("Version: 1\n" in str(s), "protected entity was changed", got=str(s))
    s = _check(ctx, "%global pkgname t\nName: %{pkgname}\nVersion: 1\nURL: http://x/%{pkgname}\n" + REST, "URL", "http://x/u")
    check("%global pkgname t\n" in str(s), "entity protected by default was changed", got=str(s))


def f_optional_delimiter(ctx):
    for pattern in (r"([.-])?rc\d+", r"([.-]?)rc\d+", r"()rc\d+", r"([.-]?)rc\d+|(-)x", r"(\.|-)*rc\d+"):
        s = _spec(ctx, "Name: t\nVersion: 1\n" + REST)
        s.update_version("2.0rc1", pattern)
        check(s.expanded_version == "2.0~rc1", "wrong pre-release version", pattern=pattern, got=s.expanded_version)


def f_prerelease_macro(ctx):
    t = "%global prerel rc1\nName: t\nVersion: 1.0%{?prerel:~%{prerel}}\n" + REST
    s = _spec(ctx, t)
    s.update_version("1.1", r"([.-]?)rc\d+", "prerel")
    check(s.expanded_version == "1.1" and "%global prerel rc1\nName: t\nVersion: 1.1%{?prerel:~%{prerel}}\n" in str(s) and str(s).startswith("%dnl"), "wrong result", got=str(s))
    s.update_version("1.2-rc3", r"([.-]?)rc\d+", "prerel")
    check(s.expanded_version == "1.2~rc3" and "Version: 1.2%{?prerel:~%{prerel}}\n" in str(s), "wrong result", got=str(s))


def fixed_cases():
    return [(n[2:], f) for n, f in sorted(globals().items()) if n.startswith("f_")]
