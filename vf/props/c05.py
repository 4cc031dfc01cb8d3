"""C05 - section edits are confined to the edited section."""
import re

from vf.core import check
from vf.gen import SAFE
from vf.util import check_lines, generate, join, open_doc, split

ID = "C05"
LEVEL = "exploration"
CASES = {"quick": 3200, "thorough": 18000}
RULE = """Grammar-generated spec files accepted by RPM; a history of list operations is applied to the sections view
and to individual sections (replacing the content, setting, deleting, inserting, appending, extending, popping,
sorting and reversing lines, adding, replacing, removing by index, slice and ID and moving sections, changing
options) and, in parallel, to plain lists of the original lines; after every operation and view the lines are
compared, finally the file is saved and reopened. Non-trivial: at least two operations; distinct by content and
history."""
ASSUMPTIONS = ["lines put into a section don't themselves start a section or a macro definition", "the preamble stays first"]
REQUIRED = ["op_replace_data", "op_replace_by_id", "op_set_line", "op_del_line", "op_del_lines", "op_insert_line",
            "op_append_line", "op_extend", "op_pop", "op_reverse", "op_add", "op_insert_section", "op_remove_index",
            "op_remove_id", "op_remove_slice", "op_move", "op_swap", "op_set_section", "op_option", "op_positional",
            "op_del_option", "tag_seen", "macro_seen", "reopened", "preamble_edits", "by_id_lookups"]
ADD = ["check", "post", "install", "build", "files", "description", "postun", "verifyscript", "clean", "Files", "POST"]


class Blk:
    fragile = False  # contains multi-line macro definitions
    trick = False  # the first line of the content is on the header line

    def __init__(self, header, data, id):
        self.header, self.data, self.id = header, list(data), id

    def lines(self):
        return ([] if self.header is None else [self.header]) + self.data


def flat(blocks):
    return [ln for b in blocks for ln in b.lines()]


class Editor:
    def __init__(self, ctx, doc):
        self.ctx, self.doc, self.n = ctx, doc, 0
        self.blocks = []
        for s in doc.secs:
            self.blocks.append(Blk(s.header, s.body(), s.name if getattr(s, "trick", None) else s.id))
            self.blocks[-1].trick = bool(getattr(s, "trick", None))
            self.blocks[-1].fragile = any(it.kind == "md" and len(it.lines) > 1 for it in s.items)

    def line(self):
        self.n += 1
        rng = self.ctx.rng
        return rng.choice([f"echo line{self.n}", f"# comment {self.n}", "", f"  indented {self.n}  ", f"%doc X{self.n}",
                           f"text: {rng.choice(SAFE)} {self.n}", f"\ttab{self.n}", f"nel\x85 ls\u2028 vt\x0b {self.n}",
                           f"%{{?undef3:{self.n}}}", f"100%% {self.n}", f"%preps {self.n}", f" %prep {self.n}",
                           f"%dnl {self.n}"])

    def new_lines(self, lo=0):
        return [self.line() for _ in range(self.ctx.rng.randint(lo, 4))]

    def new_section(self):
        from specfile.options import Options
        from specfile.sections import Section

        rng = self.ctx.rng
        self.n += 1
        name = rng.choice(ADD)
        data = self.new_lines()
        k = rng.random()
        if k < 0.4:
            return Section(name, data=data), Blk("%" + name, data, name.lower())
        opt = rng.choice([f"sub{self.n}", f"-n pkg{self.n}", f"  -n  pkg{self.n}".strip()])
        from specfile.constants import SECTION_OPTIONS

        o = Options(Options.tokenize(opt), SECTION_OPTIONS.get(name.lower()))
        if k < 0.7:
            return Section(name, o, data=data), Blk(f"%{name} {opt}", data, f"{name.lower()} {opt}")
        d = rng.choice([" ", "  ", "\t"])
        return Section(name, o, d, data=data), Blk(f"%{name}{d}{opt}", data, f"{name.lower()}{d}{opt}")

    def op(self, secs):
        rng, ctx = self.ctx.rng, self.ctx
        check(len(secs) == len(self.blocks), "number of sections", got=len(secs), want=len(self.blocks), ops=ctx.trace[1:])
        i = rng.randrange(len(self.blocks))
        if rng.random() < 0.15:
            i = rng.choice([0, len(self.blocks) - 1])
        b, s = self.blocks[i], secs[i]
        # ID of a section with content on the header line depends on what the macro expands to
        byid = b.id != "description" or not any(x.trick for x in self.blocks)
        if i and byid and rng.random() < 0.3 and " " not in b.id.replace(" ", "x", 1):
            first = next(x for x in self.blocks if x.id == b.id)
            if first is b:
                s = getattr(secs, b.id) if rng.random() < 0.5 else secs.get(b.id.upper() if " " not in b.id else b.id)
                check(s is secs[i], "lookup of a section by ID", id=b.id)
                ctx.count("by_id_lookups")
        if i == 0:
            ctx.count("preamble_edits")
        k = rng.random()
        name = b.header or "preamble"
        if k < 0.5:
            if i == 0 and k < 0.25:
                return
            d = b.data
            c = rng.randrange(11)
            j = rng.randrange(len(d)) if d else 0
            neg = bool(d) and rng.random() < 0.3
            jj = j - len(d) if neg else j
            if b.trick or b.fragile and c not in (0, 1):
                c = rng.choice([6, 8])
            if c == 1 and not byid:
                return
            if c in (2, 3, 4, 7) and i == 0:
                c = 5  # the preamble has to stay meaningful
            if c == 0 and i:
                new = self.new_lines()
                ctx.log("data", name, new)
                s.data = list(new)
                b.data, b.fragile = list(new), False
                ctx.count("op_replace_data")
            elif c == 1 and i:
                first = next(x for x in self.blocks if x.id == b.id)
                new = self.new_lines()
                ctx.log("by id", b.id, new)
                setattr(secs, b.id, list(new))
                first.data, first.fragile = list(new), False
                ctx.count("op_replace_by_id")
            elif c == 2 and d:
                new = self.line()
                ctx.log("set", name, jj, repr(new))
                s[jj] = new
                d[jj] = new
                ctx.count("op_set_line")
            elif c == 3 and d:
                ctx.log("del", name, jj)
                del s[jj]
                del d[jj]
                ctx.count("op_del_line")
            elif c == 4 and d:
                sl = rng.choice([slice(j, j + 2), slice(None, None, 2), slice(jj, None), slice(j, None, -1)])
                ctx.log("del", name, sl)
                del s[sl]
                del d[sl]
                ctx.count("op_del_lines")
            elif c == 5:
                new = self.line()
                at = rng.randint(0, len(d)) if i else len(d)
                ctx.log("insert", name, at, repr(new))
                if i == 0:
                    new = f"# pre {self.n}"
                s.insert(at, new)
                d.insert(at, new)
                ctx.count("op_insert_line")
            elif c == 6:
                new = self.line() if i else rng.choice([f"Provides: prov{self.n}", f"%global sm{self.n} val"])
                ctx.log("append", name, repr(new))
                s.append(new)
                d.append(new)
                ctx.count("op_append_line")
            elif c == 7 and d:
                ctx.log("pop", name, jj)
                got = s.pop(jj)
                check(got == d.pop(jj), "popped line")
                ctx.count("op_pop")
            elif c == 8:
                new = self.new_lines() if i else [f"# ext {self.n}"]
                ctx.log("extend", name, new)
                if rng.random() < 0.5:
                    s.extend(new)
                else:
                    s += new
                d.extend(new)
                ctx.count("op_extend")
            elif c == 9 and i:
                ctx.log("reverse", name)
                # reversing must not create continued definitions
                if not any("global" in ln or "define" in ln or ln.endswith("\\") for ln in d):
                    s.reverse()
                    d.reverse()
                    ctx.count("op_reverse")
            elif c == 10:
                m = s[:]
                check(m.data == d and s.data == d, "slice of a section")
            return
        if k < 0.62:
            new, nb = self.new_section()
            at = rng.randint(1, len(self.blocks))
            if rng.random() < 0.5:
                ctx.log("add", nb.header, nb.data)
                secs.append(new)
                self.blocks.append(nb)
                ctx.count("op_add")
            else:
                ctx.log("insert section", at, nb.header, nb.data)
                secs.insert(at, new)
                self.blocks.insert(at, nb)
                ctx.count("op_insert_section")
            return
        if i == 0:
            return
        if k < 0.72:
            c = rng.randrange(4)
            if c == 1 and not byid:
                return
            if c == 0:
                ctx.log("remove", i)
                del secs[i]
                del self.blocks[i]
                ctx.count("op_remove_index")
            elif c == 1:
                ctx.log("remove", b.id)
                first = next(x for x in self.blocks if x.id == b.id)
                delattr(secs, b.id)
                self.blocks = [x for x in self.blocks if x is not first]
                ctx.count("op_remove_id")
            elif c == 2:
                j = i + rng.randint(1, 2)
                ctx.log("remove", i, j)
                sl = rng.choice([slice(i, j), slice(i - len(self.blocks), j)])
                del secs[sl]
                del self.blocks[sl]
                ctx.count("op_remove_slice")
            else:
                ctx.log("pop", -1)
                secs.pop()
                self.blocks.pop()
                ctx.count("op_remove_index")
            return
        if k < 0.82:
            j = rng.randrange(1, len(self.blocks))
            if rng.random() < 0.5:
                ctx.log("swap", i, j)
                secs[i], secs[j] = secs[j], secs[i]
                self.blocks[i], self.blocks[j] = self.blocks[j], self.blocks[i]
                ctx.count("op_swap")
            else:
                ctx.log("move", i, j)
                secs.insert(j, secs.pop(i))
                self.blocks.insert(j, self.blocks.pop(i))
                ctx.count("op_move")
            return
        if k < 0.87:
            new, nb = self.new_section()
            ctx.log("set section", i, nb.header, nb.data)
            if not byid or rng.random() < 0.5:
                secs[i] = new
                self.blocks[i] = nb
            else:
                first = next(x for x in self.blocks if x.id == b.id)
                setattr(secs, b.id, new)
                self.blocks[self.blocks.index(first)] = nb
            ctx.count("op_set_section")
            return
        # options; only the header line changes
        from specfile.constants import SECTION_OPTIONS

        h = b.header.rstrip()
        t = b.header[len(h):]
        kw, d, opt = re.fullmatch(r"(%\w+)(\s*)(.*)", h, re.DOTALL).groups()
        if "%" in opt or '"' in opt or b.trick:
            return
        words = opt.split()
        known = SECTION_OPTIONS.get(kw[1:].lower()) or ""
        v = f"newpkg{self.n}"
        self.n += 1
        if kw.lower() == "%package" and rng.random() < 0.5:
            return
        if "-n" in words and "n" not in known:
            return
        if "-n" in words and rng.random() < 0.6:
            if rng.random() < 0.6:
                ctx.log("option", i, v)
                s.options.n = v
                new = opt.replace(words[words.index("-n") + 1], v)
                ctx.count("op_option")
            else:
                if len(words) > 2 or kw.lower() == "%package":
                    return
                ctx.log("del option", i)
                del s.options.n
                new = ""
                ctx.count("op_del_option")
        elif "-p" in words:
            ctx.log("option p", i)
            s.options.p = "/bin/sh"
            new = opt.replace(words[words.index("-p") + 1], "/bin/sh")
            ctx.count("op_option")
        elif not words:
            if rng.random() < 0.5 and "n" in known:
                ctx.log("option", i, v)
                s.options.n = v
                new = f"-n {v}"
                ctx.count("op_option")
            else:
                ctx.log("positional", i, v)
                s.options.positional.append(v)
                new = v
                ctx.count("op_positional")
        elif len(words) == 1:
            ctx.log("positional", i, v)
            s.options.positional[0] = v
            new = v
            ctx.count("op_positional")
        else:
            return
        if not new:
            b.header = kw + t
        else:
            b.header = kw + (d or " ") + new + t
        b.id = kw[1:].lower() + (((d or " ") + new) if new else "")
        check(s.normalized_id == b.id, "ID of a section after changing options", got=s.normalized_id, want=b.id)


def run_case(ctx):
    from specfile import Specfile
    from specfile.exceptions import RPMException

    rng = ctx.rng
    doc = generate(rng, **(dict(desc_trick=0.0) if rng.random() < 0.7 else {}))
    spec, path, _ = open_doc(ctx, doc, autosave=rng.random() < 0.1)
    ed = Editor(ctx, doc)
    for b, s in zip(ed.blocks, doc.secs):
        if s.header is not None and not getattr(s, "trick", None):
            b.id = s.header[1:].rstrip()
            b.id = b.id[:len(s.name)].lower() + b.id[len(s.name):]
    ok = True
    for _ in range(rng.randint(1, 3)):
        with spec.sections() as secs:
            for _ in range(rng.choice([1, 2, 3, 5])):
                ed.op(secs)
                check_lines(secs.get_raw_data(), flat(ed.blocks), "lines after the operation", ops=ctx.trace[1:])
            if ok and rng.random() < 0.2:
                # a section object obtained from the view is usable with other views
                t = next((i for i, b in enumerate(ed.blocks) if b.id == "package"), None)
                if t is not None:
                    with spec.tags(secs[t]) as tags:
                        tags[0].comments.append("via tags")
                    new = list(secs[t].data)
                    check("# via tags" in new, "edit of tags of a section object is missing")
                    rest = list(new)
                    rest.remove("# via tags")
                    old = [ln for ln in ed.blocks[t].data]
                    check(sorted(rest + ["# via tags"]) == sorted(old + ["# via tags"]), "lines around the added comment")
                    ed.blocks[t].data = new
                    ctx.count("nested_tags")
        check_lines(split(str(spec) + ("" if doc.trailing_newline else "\n"))[0], flat(ed.blocks),
                    "content after leaving the view", ops=ctx.trace[1:])
        with spec.lines() as lines:
            check_lines(lines, flat(ed.blocks), "lines view", ops=ctx.trace[1:])
        with spec.sections() as secs:
            got = [s.get_raw_data() for s in secs]
        want = [b.lines() for b in ed.blocks]
        check(got == want, "sections read back", got=[g for g in got if g not in want][:3],
              want=[w for w in want if w not in got][:3], ops=ctx.trace[1:])
        try:
            spec.expand("%{nil}")
        except RPMException:
            ok = False
            continue
        ok = True
        pre = ed.blocks[0].data
        provs = [ln[10:] for ln in pre if re.fullmatch(r"Provides: prov\d+", ln)]
        mds = [ln.split()[1] for ln in pre if re.fullmatch(r"%global sm\d+ val", ln)]
        if provs:
            values = [t.value for t in spec.tags().content]
            check(all(p in values for p in provs), "tag added through the sections view is missing", want=provs, got=values)
            ctx.count("tag_seen")
        if mds:
            names = [m.name for m in spec.macro_definitions().content]
            check(all(m in names for m in mds), "macro definition added through the sections view is missing")
            ctx.count("macro_seen")
    spec.save()
    nl = doc.trailing_newline
    got = path.read_bytes().decode("utf8", "surrogateescape")
    check(got == join(flat(ed.blocks), nl), "saved file", got=got, want=join(flat(ed.blocks), nl))
    try:
        spec2 = Specfile(path, macros=list(doc.macros))
    except RPMException:
        ctx.count("edited_content_rejected_by_rpm")
    else:
        if nl or flat(ed.blocks)[-1]:
            check([s.get_raw_data() for s in spec2.sections().content] == [b.lines() for b in ed.blocks],
                  "sections after reopening")
            ctx.count("reopened")
    if len(ctx.trace) > 2:
        ctx.nontrivial(ctx.trace)


MIN = "Name: a\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n\n%description\nd\n\n%files\n/x\n"


def _opt(op, want, id):
    def run(ctx):
        from specfile import Specfile

        p = ctx.tmp / "t.spec"
        p.write_text(MIN)
        spec = Specfile(p)
        with spec.sections() as secs:
            op(secs)
            check(secs[2].id == id, "id", got=secs[2].id)
        check(str(spec) == MIN.replace("%files", want), "content", got=str(spec))

    return run


def _unset(secs):
    secs.files.options.n = "x"
    f = secs[2]
    del f.options.n


def _new(ctx):
    from specfile.options import Options
    from specfile.sections import Section

    s = Section("files", Options(Options.tokenize("sub")), data=["/y"])
    check(s.id == "files sub", "id of a new section", got=s.id)
    check(str(s) == "%files sub\n/y\n", "new section", got=str(s))


def fixed_cases():
    return [
        ("positional", _opt(lambda s: s.files.options.positional.append("sub"), "%files sub", "files sub")),
        ("unset", _opt(_unset, "%files", "files")),
        ("option", _opt(lambda s: setattr(s.files.options, "f", "list"), "%files -f list", "files -f list")),
        ("new-positional", _new),
    ]

