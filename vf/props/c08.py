"""C08 - prep macro edits are confined to the edited macro line."""
import shlex

from vf.core import check
from vf.gen import Doc, Gen
from vf.util import check_lines, join, scratch_spec, split

ID = "C08"
LEVEL = "exploration"
CASES = {"quick": 8000, "thorough": 40000}
RULE = """Generated prep sections (setup, autosetup, autopatch and patch macros of every style with unordered numbers,
wrapped, indented, between scripts, comments, conditions, macro definitions and untokenizable lines) inside of a spec
file; a history of edits through the prep view (options and numbers changed, patch macros added, macros removed by
number, name, index and slice) is applied in parallel to a list of lines; all lines are compared after every edit and
after saving and reloading, and the macros and options are read back. Non-trivial: at least one edit; distinct by
content and history."""
ASSUMPTIONS = ["patch numbers are literal and a macro applies one patch",
               "macros in comments count as macros (known behaviour, see C02)"]
REQUIRED = ["op_option_set", "op_option_add", "op_option_del", "op_number_name", "op_number_P", "op_number_positional",
            "op_add_old", "op_add_new", "op_add_P", "op_remove_number", "op_remove_first_of_many", "op_remove_missing",
            "op_del_index", "op_del_negative", "op_del_slice", "op_del_name", "op_del_name_missing", "added_before",
            "added_after", "added_first_patch", "added_last", "wrapped_edited", "reloaded", "contains_checked", "op_number_bare",
            "op_delimiter_added", "index_zero_removed"]
OPTSTRING = {"%setup": "a:b:cDn:Tq", "%patch": "P:p:REb:z:F:d:o:Z", "%autosetup": "a:b:cDn:TvNS:p:", "%autopatch": "vp:m:M:"}
VALUES = {"n": ["dir", "%{name}-%{version}", "a b", "x%{?undef1:y}"], "b": [".orig", ".b c", 2], "z": [".z"], "d": ["src/x"],
          "o": ["out.txt"], "p": [0, 1, 2], "F": [0, 3], "a": [1, 2], "S": ["git"], "m": [1], "M": [9], "P": None}


def base(name):
    return next(b for b in OPTSTRING if name.startswith(b))


def parse(name, opts):
    """Options of a macro as written by the generator."""
    spec = OPTSTRING[base(name)]
    words = shlex.split(opts)
    out, pos = {}, []
    while words:
        w = words.pop(0)
        if w.startswith("-"):
            o = w[1]
            if spec[spec.index(o) + 1:spec.index(o) + 2] == ":":
                v = w[2:] or words.pop(0)
                out[o] = int(v) if v.isdigit() else v
            else:
                assert len(w) == 2, w
                out[o] = True
        else:
            pos.append(int(w) if w.isdigit() else w)
    return out, pos


class M:
    def __init__(self, name, prefix="", suffix="", line=None, options=None, positional=None):
        self.name, self.prefix, self.suffix, self.line = name, prefix, suffix, line
        self.options, self.positional = options or {}, positional or []

    def lines(self):
        return [self.line]

    @property
    def number(self):
        if base(self.name) != "%patch":
            return None
        if self.name != "%patch":
            return int(self.name[6:])
        return self.options.get("P", self.positional[0] if self.positional else 0)


class L:
    name = number = None

    def __init__(self, line):
        self.line = line

    def lines(self):
        return [self.line]


def make(rng):
    numbers = rng.sample(range(0, 30), rng.choice([0, 1, 2, 3, 4, 5]))
    if rng.random() < 0.5:
        numbers.sort()
    if rng.random() < 0.3 and numbers:
        numbers.append(rng.choice(numbers))
    if rng.random() < 0.15:
        numbers.append(rng.choice([100, 1000, 99999]))
    g = Gen(rng, wrapped=0.25, conds=0.5, mds=0.5)
    g.macros_override = []
    d = Doc()
    d.values = {"patches": numbers, "sources": [0] if rng.random() < 0.8 else []}
    sec = g.prep(d)
    blocks = []
    for it in sec.items:
        if it.kind == "prepmacro":
            o, p = parse(it.name, it.opts)
            blocks.append(M(it.name, it.prefix, it.suffix, it.lines[0], o, p))
        else:
            blocks.extend(L(ln) for ln in it.lines)
    if rng.random() < 0.15:
        k = rng.randint(0, len(blocks))
        blocks.insert(k, M("%patch", "", "", "%patch", {}, []))
    return blocks


class Editor:
    def __init__(self, ctx, blocks):
        self.ctx, self.blocks = ctx, blocks

    def macros(self):
        return [b for b in self.blocks if b.name]

    def expect(self, prep, what):
        check_lines(prep.get_raw_section_data(), [b.line for b in self.blocks], f"{what}: other lines changed",
                    ops=self.ctx.trace[1:])

    def resync(self, prep, b, what):
        """The line of one macro may be formatted in any way; everything else has to match."""
        got = prep.get_raw_section_data()
        i = self.blocks.index(b)
        if i < len(got):
            b.line = got[i]
        self.expect(prep, what)
        check(b.line.startswith(b.prefix + b.name) and b.line.endswith(b.suffix), f"{what}: macro line damaged", line=b.line)

    def same(self, prep, what):
        mm = self.macros()
        check(len(prep.macros) == len(mm), f"{what}: number of macros", got=len(prep.macros), want=len(mm), ops=self.ctx.trace[1:])
        for m, b in zip(prep.macros, mm):
            check(m.name == b.name, f"{what}: macro name", got=m.name, want=b.name)
            spec = OPTSTRING[base(b.name)]
            want = {o: b.options[o] for o in b.options}
            got = {o: m.options[o] for o in m.options}
            check(got == want, f"{what}: options", got=got, want=want, line=b.line, ops=self.ctx.trace[1:])
            check(list(m.options.positional) == b.positional, f"{what}: positional arguments",
                  got=list(m.options.positional), want=b.positional, line=b.line)
            if b.number is not None:
                check(m.number == b.number, f"{what}: patch number", got=m.number, want=b.number, line=b.line)
            check(m.options.optstring == spec, "recognized options", got=m.options.optstring)

    def op(self, prep):
        rng, ctx = self.ctx.rng, self.ctx
        mm = self.macros()
        k = rng.random()
        if k < 0.3 and mm:
            i = rng.randrange(len(mm))
            b, m = mm[i], prep.macros[i]
            if rng.random() < 0.3:
                first = next(x for x in mm if x.name == b.name)
                m = getattr(prep, b.name[1:])
                b = first
            spec = OPTSTRING[base(b.name)]
            o = rng.choice([c for c in spec if c not in ":P"])
            arg = spec[spec.index(o) + 1:spec.index(o) + 2] == ":"
            if o in b.options and rng.random() < 0.4:
                ctx.log("del option", b.line, o)
                delattr(m.options, o)
                del b.options[o]
                ctx.count("op_option_del")
            else:
                v = rng.choice(VALUES[o]) if arg else True
                if b.suffix and isinstance(v, str) and "{" in v and rng.random() < 0.5:
                    v = "dir2"
                ctx.log("set option", b.line, o, repr(v))
                ctx.count("op_option_set" if o in b.options else "op_option_add")
                if b.line == b.prefix + b.name + b.suffix:
                    ctx.count("op_delimiter_added")
                if rng.random() < 0.5:
                    setattr(m.options, o, v)
                else:
                    m.options[o] = v
                b.options[o] = v
            if b.prefix.startswith("%"):
                ctx.count("wrapped_edited")
            self.resync(prep, b, "changing an option")
        elif k < 0.4 and any(b.number is not None for b in mm):
            b = rng.choice([b for b in mm if b.number is not None])
            m = prep.macros[mm.index(b)]
            n = rng.choice([0, 1, 7, 42, 100])
            ctx.log("number", b.line, n)
            m.number = n
            if b.name != "%patch":
                b.name = f"%patch{n}"
                ctx.count("op_number_name")
            elif "P" in b.options:
                b.options["P"] = n
                ctx.count("op_number_P")
            elif b.positional:
                b.positional[0] = n
                ctx.count("op_number_positional")
            else:
                b.name = m.name
                check(m.number == n, "number of a bare patch macro", got=m.number, want=n)
                o, p = parse(m.name, str(m.options))
                b.options, b.positional = o, p
                ctx.count("op_number_bare")
            self.resync(prep, b, "changing a number")
        elif k < 0.6:
            n = rng.choice([0, 1, 2, 5, 9, 12, 17, 24, 40, 200])
            style = rng.choice(["old", "new", "P"])
            opts = {}
            for o in rng.sample("pREbzFdoZ", rng.choice([0, 1, 1, 2])):
                opts[o] = True if o in "REZ" else rng.choice(VALUES[o])
            ctx.log("add", n, style, opts)
            pats = [b for b in mm if b.number is not None]
            if style == "old":
                prep.add_patch_macro(n, old_style_number=True, **opts)
                new = M(f"%patch{n}", options=opts)
            elif style == "new":
                prep.add_patch_macro(n, **opts)
                new = M("%patch", options=opts, positional=[n])
            else:
                prep.add_patch_macro(P=n, **opts)
                new = M("%patch", options=dict(opts, P=n))
            ctx.count(f"op_add_{style}")
            # allowed places, in terms of the order of macros
            if pats:
                d = min(abs(b.number - n) for b in pats)
                slots = {mm.index(b) + (1 if b.number <= n else 0) for b in pats if abs(b.number - n) == d}
            else:
                slots = {len(mm)}
            got = prep.get_raw_section_data()
            lines = [b.line for b in self.blocks]
            ok = None
            for p in range(len(lines) + 1):
                if p < len(got) and got[:p] == lines[:p] and got[p + 1:] == lines[p:] and len(got) == len(lines) + 1:
                    if sum(1 for b in self.blocks[:p] if b.name) in slots and got[p].startswith(new.name):
                        ok = p
                        break
            if ok is None:
                near = sorted(slots)
                check_lines(got, lines, f"adding %patch {n}: expected exactly one new line at macro position {near}",
                            ops=ctx.trace[1:])
                check(False, f"adding %patch {n}: nothing added at macro position {near}", got=got)
            new.line = got[ok]
            self.blocks.insert(ok, new)
            if not pats:
                ctx.count("added_first_patch")
            elif ok < len(self.blocks) - 1 and any(b.number is not None for b in self.blocks[ok + 1:]):
                ctx.count("added_before")
            else:
                ctx.count("added_after")
            if ok == len(self.blocks) - 1:
                ctx.count("added_last")
        elif k < 0.72:
            nums = [b.number for b in mm if b.number is not None]
            n = rng.choice(nums) if nums and rng.random() < 0.8 else rng.choice([0, 3, 77])
            ctx.log("remove", n)
            prep.remove_patch_macro(n)
            hit = [b for b in mm if b.number == n]
            if hit:
                if len(hit) > 1:
                    ctx.count("op_remove_first_of_many")
                if mm[0] is hit[0]:
                    ctx.count("index_zero_removed")
                self.blocks.remove(hit[0])
                ctx.count("op_remove_number")
            else:
                ctx.count("op_remove_missing")
            self.expect(prep, "removing by number")
        elif k < 0.82 and mm:
            i = rng.randrange(len(mm))
            if rng.random() < 0.4:
                j = min(len(mm), i + rng.randint(1, 3))
                s = rng.choice([slice(i, j), slice(i - len(mm), j - len(mm) or None), slice(j - 1, i - 1 if i else None, -1),
                                slice(i, None, 2)])
                gone = mm[s]
                what = "op_del_slice"
            elif rng.random() < 0.5:
                s, gone, what = i, [mm[i]], "op_del_index"
            else:
                s, gone, what = i - len(mm), [mm[i]], "op_del_negative"
            ctx.log("del", s)
            del prep.macros[s]
            ctx.count(what)
            self.blocks = [b for b in self.blocks if not any(b is x for x in gone)]
            self.expect(prep, "deleting")
        elif k < 0.92:
            name = rng.choice([b.name for b in mm]) if mm and rng.random() < 0.8 else rng.choice(["%setup", "%patch3", "%autopatch"])
            hit = [b for b in mm if b.name == name]
            ctx.log("del by name", name)
            obj = prep if rng.random() < 0.5 else prep.macros
            try:
                delattr(obj, name[1:])
                check(hit, "deleting a macro that isn't there didn't fail", name=name)
                self.blocks.remove(hit[0])
                ctx.count("op_del_name")
            except AttributeError:
                check(not hit, "a macro that is there can't be deleted by name", name=name)
                ctx.count("op_del_name_missing")
            self.expect(prep, "deleting by name")
        else:
            from specfile import prep as P

            for name, cls in (("%setup", P.SetupMacro), ("%patch", P.PatchMacro), ("%autosetup", P.AutosetupMacro),
                              ("%autopatch", P.AutopatchMacro)):
                want = any(base(b.name) == name for b in mm)
                check((name in prep) == want and (cls in prep.macros) == want, "containment", name=name, want=want,
                      lines=[b.line for b in self.blocks])
            ctx.count("contains_checked")


HEAD = "Name: a\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n%description\ntext\n"


def run_case(ctx):
    from specfile import Specfile

    rng = ctx.rng
    pre = rng.choice(["", "", "%package x\nSummary: s\n%description x\n"])
    tail = rng.choice(["%build\nmake\n", "", "%build\nmake %{?undef1}\n", "%changelog\n"])
    header = rng.choice(["%prep", "%prep", "%Prep", "%prep "])
    path = scratch_spec(ctx, HEAD + pre + header + "\n" + tail)
    spec = Specfile(path)
    blocks = make(rng)
    with spec.sections() as secs:
        secs.prep.data = [b.line for b in blocks]
    spec.save()
    ctx.log("prep:", repr([b.line for b in blocks]))
    ed = Editor(ctx, blocks)

    def text():
        return HEAD + pre + join([header] + [b.line for b in ed.blocks]) + tail

    check(str(spec) == text(), "harness: content")
    for _ in range(rng.randint(1, 3)):
        with spec.prep() as prep:
            check(prep is not None, "prep view of a spec with %prep")
            ed.same(prep, "entering the view")
            for _ in range(rng.choice([1, 2, 4])):
                ed.op(prep)
        check_lines(split(str(spec))[0], split(text())[0], "content after leaving the view", ops=ctx.trace[1:])
    spec.save()
    check(path.read_text() == text(), "saved file")
    spec.reload()
    with spec.prep() as prep:
        ed.same(prep, "after reloading")
    ctx.count("reloaded")
    if len(ctx.trace) > 1:
        ctx.nontrivial(ctx.trace)


def _mk(pre, op, post):
    def run(ctx):
        from specfile import Specfile

        spec = Specfile(scratch_spec(ctx, HEAD + "%prep\n"))
        with spec.sections() as secs:
            secs.prep.data = pre.splitlines()
        with spec.prep() as prep:
            op(prep)
        check_lines(split(str(spec))[0], split(HEAD + "%prep\n" + post)[0], "content after the edit")

    return run


def _del(i):
    def f(prep):
        del prep.macros[i]
    return f


def _wrapped(prep):
    check(prep.setup.options.n == "a", "option of a wrapped macro", got=prep.setup.options.n)
    prep.setup.options.n = "b"
    prep.patch1.options.p = 1


def _numbers(prep):
    for m, n, k in zip(prep.macros, (1, 3), (7, 8)):
        check(m.number == n, "number of a patch macro with several numbers", got=m.number, want=n)
        m.number = k
        check(m.number == k, "number read back", got=m.number, want=k)


def _noprep(ctx):
    from specfile import Specfile

    spec = Specfile(scratch_spec(ctx, HEAD))
    with spec.prep() as prep:
        check(prep is None, "prep view of a spec without %prep")
    check(str(spec) == HEAD, "content of a spec without %prep")


def fixed_cases():
    return [
        ("remove-first", _mk("%patch0\nx\n%patch1\n", lambda p: p.remove_patch_macro(0), "x\n%patch1\n")),
        ("del-negative", _mk("%setup\nx\n%patch1\ny\n", _del(-1), "%setup\nx\ny\n")),
        ("del-negative-step", _mk("%setup\nx\n%patch1\ny\n", _del(slice(None, None, -1)), "x\ny\n")),
        ("untokenizable", _mk("%setup -n 'x\n%patch1\n", lambda p: p.remove_patch_macro(1), "%setup -n 'x\n")),
        ("wrapped-line", _mk("%{?x:echo a}\n%patch1\n", lambda p: p.remove_patch_macro(1), "%{?x:echo a}\n")),
        ("wrapped-whitespace", _mk("  %{?x:%setup -n a} \n%{!?x:%patch1}\t\n", _wrapped, "  %{?x:%setup -n b} \n%{!?x:%patch1 -p1}\t\n")),
        ("flag-deletion", _mk("%setup -q -n x\n", lambda p: delattr(p.setup.options, "q"), "%setup -n x\n")),
        ("two-numbers", _mk("%patch -P 1 2 -p1\n%patch -p1 3 4\n", _numbers, "%patch -P 7 2 -p1\n%patch -p1 8 4\n")),
        ("no-prep", _noprep),
    ]
