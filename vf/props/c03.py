"""C03 - editing a tag changes that tag and nothing else."""
import copy

from vf.core import Skip, Violation, check
from vf.gen import DEPTAGS, SAFE, SUBDEPTAGS, WORDS
from vf.util import check_lines, generate, join, open_doc, split

ID = "C03"
LEVEL = "exploration"
CASES = {"quick": 2400, "thorough": 14000}
RULE = """Grammar-generated spec files accepted by RPM; a random package section is edited through a history of tag
operations (value, name, comments, insert, append, del by index, slice and name, top-level properties) spread over one
or more views; after every operation the lines of the section, and after every view the whole content, are compared
with a line model kept by the check; finally the file is saved, reopened and all tags compared. Non-trivial: at least
two operations; distinct by content and history."""
ASSUMPTIONS = ["tags are replaced through their attributes, not by assigning new Tag objects",
               "new values are non-empty and without leading or trailing whitespace"]
REQUIRED = ["op_assign_instance", "op_value", "op_name", "op_comments", "op_comments_slice", "op_insert_negative", "op_insert", "op_append", "op_del_index", "op_del_negative",
            "op_del_slice", "op_del_name", "op_property", "op_attr", "inserts_next_to_conditions", "dels_with_preceding_lines",
            "reopened", "multi_op_views", "subpackage_sections", "multiline_values_set", "branch_duplicates", "branches_rpm"]


class Block:
    """A tag with its comments, or a single other line."""

    added = False

    def __init__(self, item=None, comments=(), line=None, cond=None):
        self.tag = item is not None
        self.line = line
        self.cond = cond  # open/mid/close of a condition
        self.comments = list(comments)
        if item is not None:
            self.name, self.sep, self.value = item.name, item.sep, item.value
            self.prefix, self.suffix = item.prefix, item.suffix
            self.valid, self.skipped = item.valid, item.skipped
            self.wrapped = item.wrapped

    def lines(self):
        if not self.tag:
            return [self.line]
        return self.comments + (self.prefix + self.name + self.sep + self.value + self.suffix).split("\n")


class New:
    def __init__(self, name, sep, value, valid=True):
        self.name, self.sep, self.value = name, sep, value
        self.prefix = self.suffix = ""
        self.valid, self.skipped, self.wrapped = valid, False, False


def model(doc, sec):
    out = []
    for it in sec.items:
        if it.kind == "tag":
            c = doc.attached(it)
            n = len(c) - len(it.comments)
            if n:
                del out[-n:]
            out.append(Block(it, c))
        else:
            for k, ln in enumerate(it.lines):
                cond = None
                if it.kind == "cond" and k == 0:
                    w = ln.split()[0]
                    cond = "open" if w.startswith("%if") else "close" if w == "%endif" else "mid"
                out.append(Block(line=ln, cond=cond))
    return out


def flat(blocks):
    return [ln for b in blocks for ln in b.lines()]


def blank(ln):
    return not ln.strip()


def text_value(rng):
    v = " ".join(rng.choice(WORDS if rng.random() < 0.5 else SAFE) for _ in range(rng.randint(1, 4)))
    return v.strip()


def new_value(ctx, b, n):
    rng = ctx.rng
    name = b.name.lower().split("(")[0].strip()
    free = not b.valid or b.skipped
    if name in ("version",):
        return f"{rng.randint(0, 99)}.{rng.randint(0, 99)}"
    if name == "release":
        return f"{rng.randint(1, 99)}" + rng.choice(["%{?dist}", "", "%dist"])
    if name == "epoch":
        return str(rng.randint(0, 50))
    if name == "name":
        return rng.choice(["newname", "n-%{nil}x"])
    if name == "license":
        return rng.choice(["ISC", "MIT OR ISC"])
    if name in ("url", "bugurl", "vcs"):
        return rng.choice(["https://new.example.com/x?a=%{name}", "https://new.example.com/#f"])
    if name in ("summary", "vendor", "packager", "distribution", "group"):
        v = text_value(rng)
        if b.wrapped and any(c in v for c in "{}\\"):
            v = "plain text"
        return v
    if name.rstrip("0123456789") in ("source", "patch"):
        return rng.choice([f"new{n}.tar.gz", f"https://example.com/%{{name}}/new{n}.tar.gz"])
    if any(name == d.lower().split("(")[0].strip() for d in DEPTAGS):
        c = rng.random()
        if c < 0.15 and not b.wrapped:
            ctx.count("multiline_values_set")
            return rng.choice([f"%{{lua:\nprint('newdep{n}')\n}}", f"%{{!?undef5:newdep{n}\n  \n}}"])
        return rng.choice([f"newdep{n}", f"newdep{n} >= 1.{n}", f"newdep{n}%{{?undef5}}", f"newdep{n}%{{?_isa}}"])
    return None


def ctxs(blocks):
    """Open condition blocks before each block (and at the end), as tuples of block identities."""
    out, stack = [], []
    for b in blocks:
        out.append(tuple(stack))
        if b.cond == "open":
            stack = stack + [id(b)]
        elif b.cond == "close":
            stack = stack[:-1]
    out.append(tuple(stack))
    return out


class Editor:
    def __init__(self, ctx, doc, sec, blocks):
        self.ctx, self.doc, self.sec, self.blocks = ctx, doc, sec, blocks
        self.n = 0
        self.sub = sec.header is not None

    def tags(self):
        return [b for b in self.blocks if b.tag]

    def lookup(self, name):
        m = [b for b in self.tags() if b.name.lower() == name.lower()]
        v = [b for b in m if b.valid]
        if len(m) > 1 and any(b.added for b in m):
            return None  # a tag inserted into a false branch is invalid as soon as the view is opened again
        return (v or m)[0]

    # -- verification ----------------------------------------------------------------------------
    def exact(self, tags, what):
        check_lines(tags.get_raw_section_data(), flat(self.blocks), f"{what}: other lines changed", ops=self.ctx.trace[1:])

    def deleted(self, tags, victims, what):
        actual = tags.get_raw_section_data()
        # remove the victims one by one, from the bottom
        for b in reversed(victims):
            i = self.blocks.index(b)
            if i and not self.blocks[i - 1].tag:
                self.ctx.count("dels_with_preceding_lines")
            self.blocks[i] = Block(line=None)
            self.blocks[i].hole = True
        out = []
        pos = 0
        i = 0
        bl = self.blocks

        def fail():
            want = [ln for b in bl if not getattr(b, "hole", False) for ln in b.lines()]
            check_lines(actual, want, f"{what}: other lines changed (blank lines next to the tag may be merged)",
                        ops=self.ctx.trace[1:])
            raise Violation(f"{what}: blank lines invented")

        while i < len(bl):
            b = bl[i]
            run = []
            j = i
            while j < len(bl) and (getattr(bl[j], "hole", False) or not bl[j].tag and blank(bl[j].line)):
                run.append(bl[j])
                j += 1
            if any(getattr(r, "hole", False) for r in run):
                blanks = [r for r in run if not getattr(r, "hole", False)]
                k = 0
                while pos + k < len(actual) and blank(actual[pos + k]) and k < len(blanks):
                    k += 1
                if len(blanks) and k < 1:
                    fail()
                out.extend(Block(line=actual[pos + x]) for x in range(k))
                pos += k
                i = j
                continue
            ln = b.lines()
            if actual[pos:pos + len(ln)] != ln:
                fail()
            pos += len(ln)
            out.append(b)
            i += 1
        if pos != len(actual):
            fail()
        self.blocks = out

    def inserted(self, tags, index, b, what):
        actual = tags.get_raw_section_data()
        tg = self.tags()
        lo = self.blocks.index(tg[index - 1]) + 1 if index > 0 else 0
        hi = self.blocks.index(tg[index]) if index < len(tg) else len(self.blocks)
        places = [p for p in range(lo, hi + 1) if flat(self.blocks[:p] + [b] + self.blocks[p:]) == actual]
        if not places:
            check_lines(actual, flat(self.blocks[:lo] + [b] + self.blocks[lo:]), f"{what}: other lines changed",
                        ops=self.ctx.trace[1:])
        c = ctxs(self.blocks)
        shared = min((c[p] for p in range(lo, hi + 1)), key=len)
        if any(self.blocks[p].cond for p in range(lo, hi)):
            self.ctx.count("inserts_next_to_conditions")
        ok = [p for p in places if c[p] == shared]
        check(ok, f"{what}: new tag is inside a condition block that starts or ends next to it",
              ops=self.ctx.trace[1:], section=join(actual), tag=b.lines())
        self.blocks.insert(ok[0], b)

    # -- operations ------------------------------------------------------------------------------
    def op(self, spec, tags):
        from specfile.tags import Comment, Comments, Tag

        rng, ctx = self.ctx.rng, self.ctx
        tg = self.tags()
        self.n += 1
        c = rng.random()
        check(len(tags) == len(tg), "number of tags", got=len(tags), want=len(tg), ops=ctx.trace[1:])
        if c < 0.2:
            i = rng.randrange(len(tg))
            v = new_value(ctx, tg[i], self.n)
            if v is None:
                return
            ctx.log("value", i, tg[i].name, repr(v))
            if rng.random() < 0.4 and self.lookup(tg[i].name) is tg[i]:
                ctx.count("op_attr")
                if rng.random() < 0.4:
                    nt = copy.deepcopy(tags[i])
                    nt.value = v
                    setattr(tags, rng.choice([tg[i].name, tg[i].name.lower()]), nt)
                    check(tags[i] is nt, "tag assigned by its name", name=tg[i].name)
                    ctx.count("op_assign_instance")
                else:
                    setattr(tags, rng.choice([tg[i].name, tg[i].name.lower()]), v)
            else:
                tags[i].value = v
            tg[i].value = v
            ctx.count("op_value")
            self.exact(tags, "setting a value")
        elif c < 0.3:
            i = rng.randrange(len(tg))
            b = tg[i]
            if b.name in DEPTAGS and rng.random() < 0.7:
                v = rng.choice(SUBDEPTAGS)
            else:
                v = rng.choice([b.name.upper(), b.name.lower()]) if "(" not in b.name else b.name
            ctx.log("name", i, b.name, v)
            tags[i].name = v
            b.name = v
            ctx.count("op_name")
            self.exact(tags, "renaming")
        elif c < 0.45:
            i = rng.randrange(len(tg))
            if rng.random() < 0.6:
                i = rng.choice([j for j, x in enumerate(tg) if x.comments] or [i])
            b, cm = tg[i], tags[i].comments
            k = rng.random()
            t = text_value(rng)
            if k < 0.3:
                ctx.log("comment append", i, repr(t))
                if rng.random() < 0.5:
                    cm.append(t)
                else:
                    cm.extend([t])
                b.comments.append("# " + t)
            elif k < 0.5:
                j = rng.randint(0, len(b.comments))
                ctx.log("comment insert", i, j, repr(t))
                cm.insert(j, Comment(t, "#  "))
                b.comments.insert(j, "#  " + t)
            elif k < 0.65 and b.comments:
                sl = rng.choice([slice(None), slice(None, None, 2), slice(1, None), slice(None, None, -1)])
                tt = [text_value(rng) for _ in b.comments[sl]]
                ctx.log("comments set", i, sl, tt)
                pre = [x[:len(x) - len(y.text)] for x, y in zip(b.comments, cm)]
                cm[sl] = tt
                b.comments[sl] = [x + y for x, y in zip(pre[sl], tt)]
                ctx.count("op_comments_slice", len(tt))
            elif k < 0.85 and b.comments:
                j = rng.randrange(len(b.comments))
                ctx.log("comment set", i, j, repr(t))
                pre = b.comments[j][:len(b.comments[j]) - len(cm[j].text)]
                cm[j] = t
                b.comments[j] = pre + t
            elif b.comments:
                j = rng.randrange(-len(b.comments), len(b.comments))
                ctx.log("comment del", i, j)
                del cm[j]
                del b.comments[j]
            ctx.count("op_comments")
            self.exact(tags, "editing comments")
        elif c < 0.62:
            name = rng.choice(SUBDEPTAGS if self.sub else DEPTAGS)
            value = f"added{self.n}"
            sep = rng.choice([": ", ":\t", ":       "])
            comments = [text_value(rng)] if rng.random() < 0.3 else []
            t = Tag(name, value, sep, Comments([Comment(x) for x in comments]))
            b = Block(New(name, sep, value), ["# " + x for x in comments])
            b.added = True
            if rng.random() < 0.7:
                i = rng.randint(0, len(tg))
                k = i - len(tg) if i < len(tg) and rng.random() < 0.3 else i
                ctx.log("insert", i, name, value)
                tags.insert(k, t)
                ctx.count("op_insert")
                ctx.count("op_insert_negative", k < 0)
                self.inserted(tags, i, b, "inserting a tag")
            else:
                ctx.log("append", name, value)
                tags.append(t)
                ctx.count("op_append")
                self.inserted(tags, len(tg), b, "appending a tag")
        else:
            # deletions; keep what RPM insists on
            keep = {"name", "version", "release", "summary", "license"}
            can = [i for i, b in enumerate(tg) if b.name.lower() not in keep
                   and b.name.lower().rstrip("0123456789") not in ("source", "patch")]
            if not can:
                return
            if rng.random() < 0.3:
                can = can[:1] if rng.random() < 0.5 else can[-1:]
            i = rng.choice(can)
            k = rng.random()
            if k < 0.3:
                ctx.log("del", i)
                del tags[i]
                victims = [tg[i]]
                ctx.count("op_del_index")
            elif k < 0.5:
                ctx.log("del", i - len(tg))
                del tags[i - len(tg)]
                victims = [tg[i]]
                ctx.count("op_del_negative")
            elif k < 0.75:
                j = i
                while j in can and rng.random() < 0.6:
                    j += 1
                j = max(j, i + 1) if j == i else j
                s = slice(i, j) if rng.random() < 0.7 else slice(i - len(tg), j - len(tg) if j < len(tg) else None)
                if rng.random() < 0.2:
                    s = slice(j - 1, i - 1 if i else None, -1)
                ctx.log("del", s)
                victims = sorted(tg[s], key=tg.index)
                if any(tg.index(v) not in can for v in victims):
                    return
                del tags[s]
                ctx.count("op_del_slice")
            else:
                name = rng.choice([tg[i].name, tg[i].name.lower(), tg[i].name.upper()])
                ctx.log("del tags.", name)
                victims = [self.lookup(name)]
                if victims == [None]:
                    return
                delattr(tags, name)
                ctx.count("op_del_name")
            self.deleted(tags, victims, "deleting")


PROPS = {"version": "version", "raw_release": "release", "summary": "summary", "license": "license", "url": "url",
         "epoch": "epoch", "name": "name"}


def branches_case(ctx):
    """The same tag in several branches: properties and lookup by name refer to the one that is in effect."""
    from specfile import Specfile

    rng = ctx.rng
    names = {"name": "Name", "version": "Version", "raw_release": "Release", "summary": "Summary", "license": "License", "url": "URL", "epoch": "Epoch"}
    lines, at = [], {}
    order = list(names)
    rng.shuffle(order)
    true = ["1", "0%{?def}", "%{defined def}", "1 && 2", "! 0"]
    false = ["0", "0%{?undef}", "%{undefined def}", "! 1", "0 || 0"]
    for n in order:
        k = rng.choice([1, 1, 2, 3])
        valid = rng.randrange(k)
        cells = []
        i = 0
        while i < k:
            val = f"{len(lines)}" if n == "epoch" else f"{n[0]}{i}.{len(lines)}"
            cell = [rng.choice([names[n], names[n].upper(), names[n].lower()]) + rng.choice([": ", ":\t", ":   "]), val]
            if i + 1 < k and rng.random() < 0.4:
                # two branches of one condition
                val2 = f"{len(lines)}7" if n == "epoch" else f"{n[0]}else{len(lines)}"
                cell2 = [names[n] + ": ", val2]
                cond = rng.choice(true) if valid == i else rng.choice(false)
                if valid not in (i, i + 1):
                    i += 1
                    continue
                lines.extend([["%if " + cond, ""], cell, ["%else", ""], cell2, ["%endif", ""]])
                cells += [(cell, valid == i), (cell2, valid == i + 1)]
                i += 2
                continue
            if valid == i and rng.random() < 0.5:
                lines.append(cell)
            else:
                lines.extend([["%if " + rng.choice(true if valid == i else false), ""], cell, ["%endif", ""]])
            cells.append((cell, valid == i))
            i += 1
        at[n] = next(c for c, v in cells if v)
        ctx.count("branch_duplicates", len(cells) > 1)
    lines = [["%global def 1", ""]] + lines + [["%description", ""]]
    text = lambda: "".join(a + b + "\n" for a, b in lines)
    path = ctx.tmp / "t.spec"
    path.write_text(text())
    ctx.log(text())
    spec = Specfile(path)
    for k in range(rng.randint(1, 5)):
        n = rng.choice(order)
        check(getattr(spec, n) == at[n][1], "property doesn't give the value that is in effect", property=n, got=getattr(spec, n), want=at[n][1], content=text())
        v = str(90 + k) if n == "epoch" else f"new{k}"
        old = text()
        p = rng.random()
        ctx.log(n, v, p)
        if p < 0.6:
            setattr(spec, n, v)
        elif p < 0.8:
            with spec.tags() as tags:
                getattr(tags, names[n].lower()).value = v
        else:
            with spec.tags() as tags:
                tags.get(names[n]).value = v
        at[n][1] = v
        check_lines(split(str(spec))[0], text()[:-1].split("\n"), "content after setting the tag that is in effect", property=n, value=v, old=old)
        check(getattr(spec, n) == v, "property doesn't read back", property=n, got=getattr(spec, n), want=v)
    a = ctx.oracle.ask(str(spec), [], ctx.tmp / "d")
    if a["ok"]:
        got = ctx.oracle.ask(str(spec), [], ctx.tmp / "d", exprs=["%{name}|%{version}"])
        check(got["exprs"][0] == at["name"][1] + "|" + at["version"][1], "RPM sees other values", got=got["exprs"], content=str(spec))
        ctx.count("branches_rpm")
    ctx.nontrivial(ctx.trace)


def run_case(ctx):
    from specfile import Specfile

    rng = ctx.rng
    if rng.random() < 0.07:
        return branches_case(ctx)
    doc = generate(rng, sec_conds=0, garbage=0.3, dup_mds=0.05)
    spec, path, _ = open_doc(ctx, doc, autosave=rng.random() < 0.1)
    idx = rng.choice([i for i, s in enumerate(doc.secs) if s.name == "package"])
    if rng.random() < 0.4:
        idx = 0
    sec = doc.secs[idx]
    if idx:
        ctx.count("subpackage_sections")
    before = [ln for s in doc.secs[:idx] for ln in s.lines()] + ([sec.header] if sec.header is not None else [])
    after = [ln for s in doc.secs[idx + 1:] for ln in s.lines()]
    ed = Editor(ctx, doc, sec, model(doc, sec))
    check(before + flat(ed.blocks) + after == doc.lines(), "harness: model of the section")
    nops = 0

    def whole():
        check_lines(split(str(spec))[0], before + flat(ed.blocks) + after, "content after leaving the view", ops=ctx.trace[1:])

    for step in range(rng.randint(1, 4)):
        if step and not ctx.oracle.ask(str(spec), doc.macros, ctx.tmp / "d")["ok"]:
            ctx.count("edited_content_rejected_by_rpm")
            break
        if not idx and rng.random() < 0.15:
            p = rng.choice(list(PROPS))
            m = [b for b in ed.tags() if b.name.lower() == PROPS[p]]
            b = ed.lookup(PROPS[p]) if m else None
            if b:
                v = new_value(ctx, b, 99)
                ctx.log("property", p, repr(v))
                setattr(spec, p, v)
                b.value = v
                check(getattr(spec, p) == v, "property doesn't read back", property=p, got=getattr(spec, p), want=v)
                ctx.count("op_property")
                nops += 1
            whole()
            continue
        k = rng.choice([1, 1, 2, 4])
        if k > 1:
            ctx.count("multi_op_views")
        how = rng.random()
        if how < 0.5:
            with spec.sections() as sections, spec.tags(sections[idx]) as tags:
                for _ in range(k):
                    ed.op(spec, tags)
        elif idx == 0:
            with spec.tags() as tags:
                for _ in range(k):
                    ed.op(spec, tags)
        else:
            sid = [s.id for s in spec.sections().content][idx]
            with spec.tags(sid) as tags:
                for _ in range(k):
                    ed.op(spec, tags)
        nops += k
        whole()
    # read back after saving and reopening
    spec.save()
    text = path.read_bytes().decode("utf8", "surrogateescape")
    check_lines(split(text)[0], before + flat(ed.blocks) + after, "saved file")
    r = ctx.oracle.ask(text, doc.macros, ctx.tmp / "d")
    if r["ok"]:
        spec2 = Specfile(path, macros=list(doc.macros))
        with spec2.sections() as sections, spec2.tags(sections[idx]) as tags:
            got = [(t.name, t.value, [str(c) for c in t.comments]) for t in tags]
            want = []
            run = []
            for b in ed.blocks:
                if b.tag:
                    want.append((b.name, b.value, run + b.comments))
                    run = []
                else:
                    run = run + [b.line] if b.line.lstrip().startswith("#") else []
            check(got == want, "tags after reopening", got=[g for g, w in zip(got, want) if g != w][:3],
                  want=[w for g, w in zip(got, want) if g != w][:3], counts=(len(got), len(want)), ops=ctx.trace[1:])
        ctx.count("reopened")
    if nops >= 2:
        ctx.nontrivial(ctx.trace)


MIN = "Name: a\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n"


def _mk(pre, op, post):
    def run(ctx):
        from specfile import Specfile

        p = ctx.tmp / "t.spec"
        p.write_text(MIN + pre + "%description\n")
        spec = Specfile(p)
        with spec.tags() as tags:
            op(tags)
        check_lines(split(str(spec))[0], split(MIN + post + "%description\n")[0], "content after the edit")

    return run


def _tag(name, value):
    from specfile.tags import Comments, Tag

    return Tag(name, value, ": ", Comments())


def _del(i):
    def f(tags):
        del tags[i]
    return f


def fixed_cases():
    return [
        ("del-negative-keeps-lines", _mk("URL: u\n%global x 1\nEpoch: 1\n", _del(-1), "URL: u\n%global x 1\n")),
        ("del-name-keeps-lines", _mk("URL: u\n%global x 1\nEpoch: 1\nVendor: v\n", lambda t: delattr(t, "epoch"),
                                     "URL: u\n%global x 1\nVendor: v\n")),
        ("insert-after-nested-endif", _mk("%if 1\n%if 1\nURL: u\n%endif\n%endif\nEpoch: 1\n",
                                          lambda t: t.insert(6, _tag("Provides", "p")),
                                          "%if 1\n%if 1\nURL: u\n%endif\n%endif\nProvides: p\nEpoch: 1\n")),
        ("insert-after-indented-endif", _mk("%if 1\nURL: u\n  %endif\nEpoch: 1\n",
                                            lambda t: t.insert(6, _tag("Provides", "p")),
                                            "%if 1\nURL: u\n  %endif\nProvides: p\nEpoch: 1\n")),
        ("del-negative-step", _mk("URL: u\nEpoch: 1\n%global x 1\nVendor: v\nPackager: p\n", _del(slice(7, 4, -1)),
                                  "%global x 1\nPackager: p\n")),
        ("insert-not-in-nested", _mk("%if 1\n%if 0\n%else\n%endif\n%endif\nEpoch: 1\n",
                                     lambda t: t.insert(5, _tag("Provides", "p")),
                                     "%if 1\n%if 0\n%else\n%endif\n%endif\nProvides: p\nEpoch: 1\n")),
        ("insert-not-in-definition", _mk("%global x \\\n%if 0\\\n%endif\\\nz\nEpoch: 1\n",
                                         lambda t: t.insert(5, _tag("Provides", "p")),
                                         "Provides: p\n%global x \\\n%if 0\\\n%endif\\\nz\nEpoch: 1\n")),
        ("append-outside-condition", _mk("%if 0\nURL: u\n%endif\n", lambda t: t.append(_tag("Provides", "p")),
                                         "%if 0\nURL: u\n%endif\nProvides: p\n")),
    ]
