"""C04 - editing a macro definition changes that definition and nothing else."""
import copy
import re

from vf.core import Violation, check
from vf.gen import SAFE, WORDS
from vf.props.c03 import ctxs
from vf.util import check_lines, generate, join, open_doc, split

ID = "C04"
LEVEL = "exploration"
CASES = {"quick": 1600, "thorough": 16000}
RULE = """Grammar-generated spec files accepted by RPM with macro definitions in the preamble and other sections; a
history of edits (body, name, scope, commenting out and in with every style, deletion by index, slice and name,
insertion, append) is applied in one or more views; after every operation the lines are compared with a line model,
after every view RPM is asked for the expansion of the edited macros, finally the file is saved, reopened and all
definitions compared. Non-trivial: at least two edits; distinct by content and history."""
ASSUMPTIONS = ["only single-line definitions are commented out", "bodies are non-empty"]
REQUIRED = ["op_assign_instance", "op_body", "op_multiline_body", "op_name", "op_scope", "op_comment_out", "op_comment_in", "op_del_index",
            "op_del_negative", "op_del_slice", "op_del_name", "op_insert", "op_append", "expansions_checked",
            "undefined_checked", "restored_texts", "reopened", "styles_other", "styles_hash", "styles_dnl",
            "edits_in_other_sections"]


class B:
    """A macro definition, or a single other line."""

    def __init__(self, item=None, line=None, cond=None, sec=0):
        self.md = item is not None
        self.line, self.cond, self.sec = line, cond, sec
        self.opaque = None
        if item is not None:
            self.name, self.body, self.is_global = item.name, item.body, item.is_global
            self.commented, self.style, self.ws, self.lead = item.commented, item.style, item.ws, item.lead
            self.valid = item.valid

    def render(self):
        w = self.ws
        kw = "global" if self.is_global else "define"
        return f"{w[0]}{self.lead}{kw}{w[1]}{self.name}{w[2]}{self.body}{w[3]}".split("\n")

    def lines(self):
        if not self.md:
            return [self.line]
        return self.opaque if self.opaque is not None else self.render()


class New:
    def __init__(self, name, body, is_global):
        self.name, self.body, self.is_global = name, body, is_global
        self.commented, self.style, self.ws, self.lead, self.valid = False, "DNL", ("", " ", " ", ""), "%", True


def model(doc):
    out = []
    for si, s in enumerate(doc.secs):
        if s.header is not None:
            out.append(B(line=s.header, sec=si))
        for it in s.items:
            if it.kind == "md":
                out.append(B(it, sec=si))
                continue
            for k, ln in enumerate(it.lines):
                cond = None
                if it.kind == "cond" and k == 0:
                    w = ln.split()[0]
                    cond = "open" if w.startswith("%if") else "close" if w == "%endif" else "mid"
                out.append(B(line=ln, cond=cond, sec=si))
    return out


def flat(blocks):
    return [ln for b in blocks for ln in b.lines()]


class Editor:
    def __init__(self, ctx, doc):
        self.ctx, self.doc = ctx, doc
        self.blocks = model(doc)
        self.touched = set()
        self.n = 0

    def mds(self):
        return [b for b in self.blocks if b.md]

    def acceptable(self, blocks):
        return self.ctx.oracle.ask(join(flat(blocks), self.doc.trailing_newline), self.doc.macros, self.ctx.tmp / "d")["ok"]

    def exact(self, mds, what):
        check_lines(mds.get_raw_data(), flat(self.blocks), f"{what}: other lines changed", ops=self.ctx.trace[1:])
        for d, b in zip(mds, self.mds()):
            check(str(d) == "\n".join(b.lines()), f"{what}: text of a definition", got=str(d), want=b.lines(), ops=self.ctx.trace[1:])

    def resync(self, mds, b, what):
        """Takes the text of one single-line definition from the actual lines; everything else has to match."""
        actual = mds.get_raw_data()
        i = sum(len(x.lines()) for x in self.blocks[:self.blocks.index(b)])
        b.opaque = [actual[i]] if i < len(actual) else [""]
        check_lines(actual, flat(self.blocks), f"{what}: other lines changed", ops=self.ctx.trace[1:])
        check(b.name in actual[i] and b.body in actual[i], f"{what}: definition lost", line=actual[i])

    def lookup(self, name):
        m = [b for b in self.mds() if b.name == name]
        v = [b for b in m if b.valid]
        return (v or m)[0]

    def body(self, single):
        rng = self.ctx.rng
        c = rng.random()
        if c < 0.5:
            return f"nb{self.n}." + rng.choice(SAFE)
        if c < 0.7:
            v = " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 3))).strip()
            return "x" + v if not v.endswith("\\") else "xx"
        if c < 0.85 or single:
            return rng.choice(["%{?undef3:z}w", "%%x", "%[2+3]", "a%{nil}b"])
        self.ctx.count("op_multiline_body")
        return rng.choice(["\\\nline1\\\nline2", "%{expand:\n  a\n  b\n}", "first\\\n%prep\\\nlast", "%{lua:\nprint(1)\n}"])

    def op(self, mds):
        from specfile.macro_definitions import CommentOutStyle, MacroDefinition

        rng, ctx = self.ctx.rng, self.ctx
        self.n += 1
        dd = self.mds()
        check(len(mds) == len(dd), "number of macro definitions", got=len(mds), want=len(dd), ops=ctx.trace[1:])
        c = rng.random()
        if not dd or c < 0.17:
            name, body = f"added{self.n}", self.body(False)
            g = rng.random() < 0.5
            d = MacroDefinition(name, body, g, False, CommentOutStyle.DNL, ("", " ", " ", ""))
            b = B(New(name, body, g))
            i = rng.randint(0, len(dd)) if rng.random() < 0.7 else len(dd)
            lo = self.blocks.index(dd[i - 1]) + 1 if i > 0 else 0
            hi = self.blocks.index(dd[i]) if i < len(dd) else len(self.blocks)
            if i == len(dd) and rng.random() < 0.7:
                ctx.log("append", name, repr(body))
                mds.append(d)
                ctx.count("op_append")
            else:
                ctx.log("insert", i, name, repr(body))
                mds.insert(i, d)
                ctx.count("op_insert")
            actual = mds.get_raw_data()
            places = [p for p in range(lo, hi + 1) if flat(self.blocks[:p] + [b] + self.blocks[p:]) == actual]
            if not places:
                check_lines(actual, flat(self.blocks[:lo] + [b] + self.blocks[lo:]), "adding a definition: other lines changed",
                            ops=ctx.trace[1:])
            b.valid = not ctxs(self.blocks)[places[0]]
            b.sec = self.blocks[places[0] - 1].sec if places[0] else 0
            self.blocks.insert(places[0], b)
            self.touched.add(name)
            return
        i = rng.randrange(len(dd))
        if rng.random() < 0.2:
            i = rng.choice([0, len(dd) - 1])
        b, d = dd[i], mds[i]
        saved = copy.deepcopy(self.blocks)
        if b.sec:
            ctx.count("edits_in_other_sections")
        self.touched.add(b.name)
        if c < 0.4:
            v = self.body(b.commented)
            old = b.body
            b.body = v
            if b.opaque is not None:
                b.opaque = None if not b.commented else b.opaque
            if b.opaque is None and not self.acceptable(self.blocks):
                self.blocks = saved
                return
            ctx.log("body", i, b.name, repr(v))
            if rng.random() < 0.4 and self.lookup(b.name) is b and "(" not in b.name:
                if rng.random() < 0.4:
                    nd = copy.deepcopy(d)
                    nd.body = v
                    setattr(mds, b.name, nd)
                    check(mds[i] is nd, "definition assigned by its name", name=b.name)
                    ctx.count("op_assign_instance")
                else:
                    setattr(mds, b.name, v)
            else:
                d.body = v
            ctx.count("op_body")
            if b.opaque is not None:
                self.resync(mds, b, "setting a body")
            else:
                self.exact(mds, "setting a body")
            self.n += 0 * len(old)
        elif c < 0.47:
            v = f"ren{self.n}" + (b.name[b.name.index("("):] if "(" in b.name else "")
            b.name = v
            if not self.acceptable(self.blocks):
                self.blocks = saved
                return
            ctx.log("name", i, v)
            d.name = v
            self.touched.add(v)
            ctx.count("op_name")
            if b.opaque is not None:
                self.resync(mds, b, "renaming")
            else:
                self.exact(mds, "renaming")
        elif c < 0.55:
            b.is_global = not b.is_global
            if not self.acceptable(self.blocks):
                self.blocks = saved
                return
            ctx.log("scope", i)
            d.is_global = not d.is_global
            ctx.count("op_scope")
            if b.opaque is not None:
                self.resync(mds, b, "changing scope")
            else:
                self.exact(mds, "changing scope")
        elif c < 0.8:
            if "\n" in b.body or b.body.endswith("\\"):
                return
            if b.commented:
                ctx.log("comment in", i, b.name)
                lead, ws0 = b.lead, b.ws[0]
                was_opaque = b.opaque is not None and lead == "%"
                b.commented, b.opaque, b.lead = False, None, "%"
                if not self.acceptable(self.blocks):
                    self.blocks = saved
                    return
                d.commented_out = False
                if was_opaque:
                    self.exact(mds, "commenting out and in again")
                    ctx.count("restored_texts")
                else:
                    # leading whitespace inside of the comment may go
                    self.resync(mds, b, "commenting in")
                    check(re.fullmatch(r"\s*%(global|define)\s+" + re.escape(b.name) + r"\s+" + re.escape(b.body) + r"\s*",
                                       b.opaque[0]), "commenting in: not a definition", line=b.opaque[0])
                    b.lead = b.opaque[0][:re.search("global|define", b.opaque[0]).start()]
                    b.ws = ("",) + b.ws[1:]
                    b.opaque = None
                    self.exact(mds, "commenting in")
                ctx.count("op_comment_in")
            else:
                style = rng.choice(["DNL", "HASH", "OTHER"])
                # would RPM still accept the spec without it?
                b.line, b.md = "#", False
                ok = self.acceptable(self.blocks)
                b.md = True
                if not ok:
                    self.blocks = saved
                    return
                ctx.log("comment out", i, b.name, style)
                b.commented, b.style = True, style
                d.comment_out_style = CommentOutStyle[style]
                d.commented_out = True
                ctx.count("op_comment_out")
                ctx.count("styles_" + style.lower())
                b.opaque = ["?"]
                self.resync(mds, b, "commenting out")
        else:
            k = rng.random()
            s = None
            if k < 0.35:
                s, what = i, "op_del_index"
            elif k < 0.55:
                s, what = i - len(dd), "op_del_negative"
            elif k < 0.75:
                j = min(len(dd), i + rng.randint(1, 3))
                s = rng.choice([slice(i, j), slice(i - len(dd), j - len(dd) or None), slice(j - 1, i - 1 if i else None, -1)])
                what = "op_del_slice"
            else:
                what = "op_del_name"
            if what == "op_del_name":
                victims = [self.lookup(b.name)]
            else:
                victims = dd[s] if isinstance(s, slice) else [dd[s]]
            left = [x for x in self.blocks if not any(x is v for v in victims)]
            if not self.acceptable(left):
                return
            ctx.log("del", s if what != "op_del_name" else b.name)
            if what == "op_del_name":
                delattr(mds, b.name)
            else:
                del mds[s]
            ctx.count(what)
            for v in victims:
                self.touched.add(v.name)
            self.blocks = left
            self.exact(mds, "deleting")

    def check_rpm(self, spec):
        """What the touched macros have to expand to."""
        from specfile.exceptions import RPMException

        c = ctxs(self.blocks)
        where = {id(b): c[i] for i, b in enumerate(self.blocks)}
        text = join(flat(self.blocks))
        try:
            spec.expand("%{nil}")
        except RPMException:
            # %prep refers to a missing source or patch
            self.ctx.count("edited_content_rejected_by_rpm")
            return False
        for name in sorted(self.touched):
            if "(" in name or any(b.name.startswith(name + "(") and not b.commented for b in self.mds()):
                continue
            dd = [b for b in self.mds() if b.name == name and not b.commented]
            if not dd:
                if name in text and re.search(r"(global|define)\s+" + name + r"\b", re.sub(r"(?m)^\s*(#|%dnl).*$", "", text)):
                    continue  # defined in some other way
                got = spec.expand(f"%{{{name}}}")
                check(got == f"%{{{name}}}", "macro without a definition is still defined", name=name, got=got,
                      ops=self.ctx.trace[1:], spec=text)
                self.ctx.count("undefined_checked")
            elif not any(where[id(b)] for b in dd) and re.fullmatch(r"[\w.]+", dd[-1].body):
                got = spec.expand(f"%{{{name}}}")
                check(got == dd[-1].body, "RPM doesn't expand the macro to the new body", name=name, got=got,
                      want=dd[-1].body, ops=self.ctx.trace[1:], spec=text)
                self.ctx.count("expansions_checked")
        return True


def run_case(ctx):
    from specfile import Specfile

    rng = ctx.rng
    doc = generate(rng, sec_conds=0, dup_mds=0.25, mds=1.5)
    spec, path, _ = open_doc(ctx, doc, autosave=rng.random() < 0.1)
    ed = Editor(ctx, doc)
    check(flat(ed.blocks) == doc.lines(), "harness: model")
    views = rng.randint(1, 3)
    for step in range(views):
        k = rng.choice([1, 2, 3, 5])
        with spec.macro_definitions() as mds:
            for _ in range(k):
                ed.op(mds)
        check_lines(split(str(spec))[0], flat(ed.blocks), "content after leaving the view", ops=ctx.trace[1:])
        if not ed.acceptable(ed.blocks):
            ctx.count("edited_content_rejected_by_rpm")
            break
        if not ed.check_rpm(spec):
            break
        # view is parsed again: attributes of commented out definitions are kept by the text only
        with spec.macro_definitions() as mds:
            got = [(m.name, m.body, m.is_global, m.commented_out, m.comment_out_style.name if m.commented_out else "") for m in mds]
        want = [(b.name, b.body, b.is_global, b.commented, b.style if b.commented else "") for b in ed.mds()]
        check(got == want, "definitions read back", got=[g for g, w in zip(got, want) if g != w][:2],
              want=[w for g, w in zip(got, want) if g != w][:2], counts=(len(got), len(want)), ops=ctx.trace[1:])
        for b in ed.mds():
            if b.commented and b.opaque is not None:
                # a new object; the original text of a freshly parsed OTHER/DNL comment isn't known to it
                b.lead = "?"
    else:
        spec.save()
        check_lines(split(path.read_bytes().decode("utf8", "surrogateescape"))[0], flat(ed.blocks), "saved file")
        spec2 = Specfile(path, macros=list(doc.macros))
        got = [(m.name, m.body, m.is_global, m.commented_out) for m in spec2.macro_definitions().content]
        want = [(b.name, b.body, b.is_global, b.commented) for b in ed.mds()]
        check(got == want, "definitions after reopening", got=got, want=want)
        ctx.count("reopened")
    if len(ctx.trace) > 2:
        ctx.nontrivial(ctx.trace)


MIN = "Name: a\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n"


def _mk(pre, op, post):
    def run(ctx):
        from specfile import Specfile

        p = ctx.tmp / "t.spec"
        p.write_text(MIN + pre + "%description\n")
        spec = Specfile(p)
        with spec.macro_definitions() as mds:
            op(mds)
        check_lines(split(str(spec))[0], split(MIN + post + "%description\n")[0], "content after the edit")

    return run


def _del(i):
    def f(mds):
        del mds[i]
    return f


def _other(mds):
    from specfile.macro_definitions import CommentOutStyle

    mds.x.comment_out_style = CommentOutStyle.OTHER
    mds.x.commented_out = True


def _uncomment(mds):
    mds.x.commented_out = False


def _restyle(style, out):
    def f(mds):
        from specfile.macro_definitions import CommentOutStyle

        mds.x.commented_out = False
        if out:
            mds.x.comment_out_style = CommentOutStyle[style]
            mds.x.commented_out = True
    return f


def fixed_cases():
    return [
        ("del-negative", _mk("%global x 1\nURL: u\n%global y 2\nEpoch: 1\n", _del(-1), "%global x 1\nURL: u\nEpoch: 1\n")),
        ("del-name", _mk("%global x 1\nURL: u\n%global y 2\nEpoch: 1\n", lambda m: delattr(m, "y"), "%global x 1\nURL: u\nEpoch: 1\n")),
        ("del-negative-step", _mk("%global x 1\nURL: u\n%global y 2\nEpoch: 1\n%global z 3\n", _del(slice(None, None, -1)),
                                  "URL: u\nEpoch: 1\n")),
        ("style-other", _mk("%global x 1\n", _other, "#%%global x 1\n")),
        ("other-to-hash", _mk("## foo %%global x 1\n", _restyle("HASH", True), "#global x 1\n")),
        ("dnl-before-comment", _mk("%dnl # %%global x 1\n%global y 2\n", lambda m: setattr(m, "y", "3"),
                                   "%dnl # %%global x 1\n%global y 3\n")),
        ("other-to-dnl", _mk("# %%global x 1\n", _restyle("DNL", True), "%dnl %global x 1\n")),
        ("dnl-prefix-in", _mk("%dnl foo %global x 1\n", _restyle("DNL", False), "%global x 1\n")),
        ("style-other-in", _mk("#%%global x 1\n", _uncomment, "%global x 1\n")),
    ]
