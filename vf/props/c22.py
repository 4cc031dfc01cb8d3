"""C22 - copies are equal, independent and stay usable."""
import copy
import gc
import itertools

from vf.core import check
from vf.util import scratch_spec, split

ID = "C22"
LEVEL = "exploration"
CASES = {"quick": 1000, "thorough": 20000}
RULE = """(a) Specs made of near-duplicate entities (tags, macro definitions, %prep macros, sections, changelog entries, sources and
patches, list entries, comments) that differ in one character, option, positional argument, whitespace, comment or in nothing;
all pairs within a spec and across two specs have to be equal exactly when their text is. Containers and entities are deep-copied,
the copy and the original are edited in turns and the other one has to stay as it was, also after the original and its spec
are gone. (b) Histories of 8-30 operations on a spec and its deep copies (also made inside open views): edits through views and
properties, changes of overrides, source directory, path, autosave and forced parsing, saving, reloading, expanding, breaking and disposing.
A model holds content and settings of every object; after every operation all contents and files and pairwise equalities are
compared with it, and expansions with a fresh RPM. Non-trivial: a history with two copies alive and an edit after copying, or
a pool with equal and different pairs; distinct by trace."""
ASSUMPTIONS = ["entities are compared with entities of the same kind, containers are equal when their items are"]
REQUIRED = ["pairs_equal", "pairs_different", "entity_copies", "copy_edited", "original_edited", "original_gone", "containers", "spec_copies", "spec_edits", "spec_equal",
            "spec_different", "expansions", "disposed", "in_view", "saved", "reloaded", "kind_tag", "kind_comment", "kind_macro", "kind_prep", "kind_section", "kind_entry",
            "kind_source", "kind_listentry", "kind_options", "settings", "shared_in_list", "newline", "shallow"]


# -- public state of objects -------------------------------------------------------------------------
def d_comments(cs):
    return [(c.text, c.prefix) for c in cs]


def d_options(o):
    return (str(o), sorted((k, repr(v)) for k, v in dict(o).items()), [repr(p) for p in o.positional])


DUMP = {
    "tag": lambda t: (t.name, t.value, t.valid, d_comments(t.comments)),
    "comment": lambda c: (c.text, c.prefix, str(c)),
    "macro": lambda m: (m.name, m.body, m.is_global, m.commented_out, str(m.comment_out_style), m.valid),
    "prep": lambda m: (type(m).__name__, m.name, d_options(m.options)),
    "options": lambda o: (d_options(o),),
    "section": lambda s: (s.name, s.id, d_options(s.options), list(s), str(s)),
    "entry": lambda e: (e.header, list(e.content), str(e)),
    "source": lambda s: (s.location, s.number, s.valid, d_comments(s.comments)),
    "listentry": lambda s: (s.location, s.valid, d_comments(s.comments)),
}
CLASSES = {"Tag": "tag", "Comment": "comment", "MacroDefinition": "macro", "Options": "options", "Section": "section", "ChangelogEntry": "entry", "TagSource": "source",
           "ListSource": "source", "TagPatch": "source", "ListPatch": "source", "SourcelistEntry": "listentry"}


def dump(kind, obj):
    return DUMP[kind](obj)


def dump_all(kind, container):
    return [dump(kind, x) for x in container]


def mutate(r, kind, x):
    """Changes an entity through its public attributes; returns what was done."""
    if kind == "tag":
        k = r.choice(["value", "name", "comment", "text"])
        if k == "value":
            x.value = x.value + "x"
        elif k == "name":
            x.name = x.name.swapcase()
        elif k == "text" and len(x.comments):
            x.comments[0].text += "!"
        else:
            x.comments.append("another")
    elif kind == "comment":
        k = "text"
        x.text += "!"
    elif kind == "macro":
        k = r.choice(["body", "name", "global", "commented"])
        if k == "body":
            x.body = x.body + "x"
        elif k == "name":
            x.name = x.name + "x"
        elif k == "global":
            x.is_global = not x.is_global
        else:
            x.commented_out = not x.commented_out
    elif kind in ("prep", "options"):
        o = x.options if kind == "prep" else x
        k = r.choice(["option", "positional"])
        if k == "option":
            n = next((c for c in "pb" if c in o.optstring), None)
            if n:
                setattr(o, n, 7 if getattr(o, n) != 7 else 8)
            else:
                o.positional.append("z")
        else:
            o.positional.append("z")
    elif kind == "section":
        k = r.choice(["line", "option"])
        if k == "line":
            x.append("another line")
        else:
            x.options.positional.append("z")
    elif kind == "entry":
        k = r.choice(["content", "line", "header"])
        if k == "content":
            x.content.append("- another")
        elif k == "line":
            x.content[:] = ["- changed"]
        else:
            x.header += "x"
    elif kind == "source":
        k = r.choice(["location", "comment"])
        if k == "location":
            x.location = x.location + "x"
        else:
            x.comments.append("another")
    elif kind == "listentry":
        k = r.choice(["location", "comment"])
        if k == "location":
            x.location = x.location + "x"
        else:
            x.comments.append("another")
    return k


# -- pools of near-duplicates ------------------------------------------------------------------------
HEAD = "Name: test\nVersion: 0.1\nRelease: 1\nSummary: Test\nLicense: MIT\n"


class Pool:
    """A spec of near-duplicates with the signature of every entity."""

    def __init__(self, r):
        self.r = r

    def comment(self):
        r = self.r
        return r.choice(["# ", "# ", "#", "#  "]) + r.choice(["a", "b"])

    def comments(self):
        return [self.comment() for _ in range(self.r.choice([0, 0, 0, 1, 1, 2]))]

    def tags(self):
        r = self.r
        out = []
        for _ in range(r.randint(2, 5)):
            c = self.comments()
            name = r.choice(["Requires", "Requires", "requires", "Provides"])
            line = name + r.choice([": ", ": ", ":", ":  ", " : "]) + r.choice(["a", "b"]) + r.choice(["", "", " "])
            if r.random() < 0.2:
                line = "%{?nil:" + line.rstrip() + "}"
            out.append((c, line))
        return out

    def macros(self):
        r = self.r
        return [r.choice(["", "", "", " ", "#%", "%dnl "]) + "%" + r.choice(["global", "global", "define"]) + r.choice([" ", " ", "  "]) + r.choice(["m1", "m2"]) + r.choice([" ", " ", "  ", "\t"]) +
                r.choice(["a", "b"]) + r.choice(["", "", " "]) for _ in range(r.randint(2, 5))]

    def prep(self):
        r = self.r
        out = []
        for _ in range(r.randint(2, 5)):
            line = r.choice(["%setup -q", "%setup -q -n a", "%setup -n a -q", "%setup -q -n b", "%setup -T", "%setup", "%setup -q  -n a", "%setup  -q", "%patch 1", "%patch 2", "%patch 1 -p1",
                             "%patch -p1 1", "%patch -P1", "%patch -P 1", "%patch1", "%patch2 -p1", "%autosetup -p1", "%autosetup -p2", "%autosetup", "%autopatch 1", "%autopatch 2", "%autopatch",
                             "%autopatch -m1 1", "%autosetup -n 'a'", "%autosetup -n a"])
            if r.random() < 0.15:
                line = "%{?nil:" + line + "}"
            out.append(line + r.choice(["", "", " "]))
        return out

    def sections(self):
        r = self.r
        # (name, body) with unique ids as RPM requires it, contents repeat
        ids = r.sample(["build", "install", "check", r.choice(["pre", "pre -p /bin/sh"]), r.choice(["post", "post -p /bin/sh"]), "files", "clean", "files -n x", "pre -n x", r.choice(["preun -n x", "preun  -n x"])], r.randint(3, 6))
        return [("%" + i, [r.choice(["a", "b"]) for _ in range(r.choice([0, 1, 1, 2]))]) for i in ids]

    def entries(self):
        r = self.r
        out = []
        for _ in range(r.randint(2, 4)):
            header = "* " + r.choice(["Mon Jan 01 2024", "Tue Jan 02 2024"]) + " A <a@b.c>" + r.choice([" - 1-1", " - 1-2", "", " 1-1"])
            out.append((header, [r.choice(["- a", "- b", "  c"]) for _ in range(r.choice([1, 1, 2]))], [""] * r.choice([0, 1, 1, 2])))
        return out

    def listentries(self):
        r = self.r
        return [(self.comments(), r.choice(["a", "b", "c"]) + r.choice(["", "", " "])) for _ in range(r.randint(2, 4))]


def build(p, with_lists):
    """Text of a spec and signatures of its entities."""
    sig = {}
    text = ""
    mds = p.macros()
    sig["macro"] = [m for m in mds]
    text += "\n".join(mds) + "\n" + HEAD
    tags = p.tags()
    sig["tag"] = [(tuple(c), l) for c, l in tags]
    for c, l in tags:
        text += "".join(x + "\n" for x in c) + l + "\n"
    srcs = []
    text += "Patch1: a\nPatch2: b\n"
    for n in range(p.r.randint(1, 3)):
        c = p.comments()
        l = f"Source{n}{p.r.choice([':', ': '])}" + p.r.choice(["a", "b"])
        srcs.append((tuple(c), l))
        text += "".join(x + "\n" for x in c) + l + "\n"
    sig["source"] = srcs
    text += "\n%description\nText.\n\n%package -n x\nSummary: X\n\n%description -n x\nText.\n\n"
    if with_lists:
        les = p.listentries()
        sig["listentry"] = [(tuple(c), l) for c, l in les]
        text += "%sourcelist\n" + "".join("".join(x + "\n" for x in c) + l + "\n" for c, l in les)
    prep = p.prep()
    sig["prep"] = prep
    text += "%prep\n" + "\n".join(prep) + "\n"
    secs = p.sections()
    sig["section"] = [(h, tuple(b)) for h, b in secs]
    text += "".join(h + "\n" + "".join(x + "\n" for x in b) for h, b in secs)
    entries = p.entries()
    sig["entry"] = [(h, tuple(c), tuple(f)) for h, c, f in entries]
    text += "%changelog\n" + "".join(h + "\n" + "".join(x + "\n" for x in c + f) for h, c, f in entries)
    return text, sig


def open_views(spec, sig):
    """Entities of the spec in the order of their signatures."""
    out = {}
    with spec.tags() as tags:
        out["tag"] = [t for t in tags if t.name.lower() in ("requires", "provides")]
        out["tags"] = tags
        keep = [t.comments for t in out["tag"]]
        out["comment"] = [c for cs in keep for c in cs]
        sig["comment"] = [x for c, _ in sig["tag"] for x in c]
    with spec.macro_definitions() as mds:
        out["macro"] = list(mds)
        out["macro_definitions"] = mds
    with spec.sections() as sections:
        heads = [h for h, _ in sig["section"]]
        out["section"] = [s for s in sections if "%" + s.id in heads]
        out["sections"] = sections
    with spec.prep() as prep:
        out["prep"] = list(prep.macros)
        out["prep_view"] = prep
        out["options"] = [m.options for m in out["prep"]]
    sig["options"] = None
    with spec.changelog() as changelog:
        out["entry"] = list(reversed(changelog))
        out["changelog"] = changelog
    with spec.sources() as sources:
        out["source"] = [s for s in sources][:len(sig["source"])]
        out["sources"] = sources
    if "listentry" in sig:
        from specfile.sourcelist import Sourcelist

        out["listentry"] = list(Sourcelist.parse(next(s for s in out["sections"] if s.name == "sourcelist"), context=spec))
    return out


KINDS = ("tag", "comment", "macro", "prep", "options", "section", "entry", "source", "listentry")


def pool_case(ctx):
    from specfile import Specfile

    r = ctx.rng
    p = Pool(r)
    with_lists = r.random() < 0.4
    pools = []
    for i in range(2):
        text, sig = build(p, with_lists)
        ans = ctx.oracle.ask(text, [], ctx.tmp)
        check(ans["ok"], "harness: generated spec isn't accepted by RPM", text=text, stderr=ans.get("stderr"))
        ctx.log(repr(text))
        spec = Specfile(scratch_spec(ctx, text, f"p{i}.spec"))
        ents = open_views(spec, sig)
        pools.append((spec, ents, sig, text))
    eq = ne = 0
    for kind in KINDS:
        objs = []
        for spec, ents, sig, text in pools:
            if kind not in ents:
                continue
            if kind == "options":
                # the text of options, with positional arguments
                sigs = [(str(o), type(m).__name__) for o, m in zip(ents["options"], ents["prep"])]
            elif kind == "prep":
                sigs = sig[kind]
            else:
                sigs = sig[kind]
            check(len(ents[kind]) == len(sigs), "harness: entities of the generated spec weren't found", kind=kind, got=len(ents[kind]), want=sigs, text=text)
            objs += list(zip(ents[kind], sigs))
        for (a, sa), (b, sb) in itertools.product(objs, objs):
            ctx.count("kind_" + kind)
            if kind == "options" and sa[1] != sb[1]:
                continue
            same = sa == sb
            if kind in ("prep", "options") and not same and dump(kind, a)[:-1] + dump(kind, a)[-1][1:] == dump(kind, b)[:-1] + dump(kind, b)[-1][1:]:
                # the same options and arguments, written in a different way
                continue
            check((a == b) is same and (a != b) is not same, "entities are (not) equal although their text is different (the same)", kind=kind, a=repr(a), b=repr(b), text_a=sa, text_b=sb,
                  equal=a == b)
            ctx.count("pairs_equal" if same else "pairs_different")
            eq += same and a is not b
            ne += not same
    # containers and entities of one pool are copied and edited
    spec, ents, sig, text = pools[0]
    for name, kind in (("tags", "tag"), ("macro_definitions", "macro"), ("sections", "section"), ("prep_view", "prep"), ("changelog", "entry"), ("sources", "source")):
        if r.random() < 0.6:
            container_case(ctx, name, kind, ents[name])
    for kind in KINDS:
        if ents.get(kind) and r.random() < 0.5:
            entity_case(ctx, kind, r.choice(ents[kind]))
    # what is left of a copy of tags works without everything else
    tags = copy.deepcopy(ents["tags"])
    want = [(t.name, t.value, ctx.oracle.ask(text, [], ctx.tmp, exprs=[t.value])["exprs"][0]) for t in tags[:3]]
    srcs = copy.deepcopy(ents["sources"])
    del spec, ents, pools
    gc.collect()
    got = [(t.name, t.value, t.expanded_value) for t in tags[:3]]
    check(got == want, "copied tags don't work after the original is gone", got=got, want=want)
    check([s.expanded_location for s in srcs] == [s.location for s in srcs], "copied sources don't work after the original is gone")
    ctx.count("original_gone")
    if eq and ne:
        ctx.nontrivial(text)


def sans_text(ds):
    """Dumps of %prep macros without the text of their options."""
    return [(t, n, o[1:]) for t, n, o in ds]


def items(name, c):
    return list(c.macros) if name == "prep_view" else list(c)


def container_case(ctx, name, kind, orig):
    r = ctx.rng
    before = dump_all(kind, items(name, orig))
    c = copy.deepcopy(orig)
    check(type(c) is type(orig) and c == orig and orig == c and not c != orig, "copy of a container isn't equal to the original", container=name, original=repr(orig), copy=repr(c))
    check(repr(c) == repr(orig), "copy of a container has another representation", container=name)
    check(dump_all(kind, items(name, c)) == before, "copy of a container has other content", container=name)
    check(not any(a is b for a in items(name, c) for b in items(name, orig)), "copy of a container shares entities with the original", container=name)
    if name == "sections":
        check([str(s) for s in c] == [str(s) for s in orig], "copied sections have another text")
    ctx.count("containers")
    ctx.count("entity_copies")
    shallow(ctx, name, kind, orig)
    # edit the copy, then the original
    for which, x, other in (("copy", c, orig), ("original", orig, c)):
        if which == "original":
            x, other = c, copy.deepcopy(c)  # a copy of a copy; the first copy is edited now
            x, other = x, other
        keep = dump_all(kind, items(name, other))
        mine = dump_all(kind, items(name, x))
        its = items(name, x)
        k = r.random()
        if its and k < 0.6:
            what = mutate(r, kind, r.choice(its))
        elif its and k < 0.8:
            what = "del"
            i = r.randrange(len(its))
            if name == "prep_view":
                del x.macros[i]
            else:
                del x[i]
        else:
            what = "reverse"
            if name == "sources":
                x.append(f"new{len(ctx.trace)}")
            elif name == "prep_view":
                x.macros.data.reverse()
            else:
                x.data.reverse()
        now = dump_all(kind, items(name, x))
        ctx.log(name, which, what)
        check(dump_all(kind, items(name, other)) == keep, f"editing a {which} changed the other object", container=name, edit=what, before=keep, after=dump_all(kind, items(name, other)))
        if now != mine:
            if kind == "prep" and sans_text(now) == sans_text(keep):
                continue  # the same options and arguments, written in a different way
            check(x != other and not x == other, "containers are equal although their items are not", container=name, edit=what, a=now, b=keep)
        ctx.count("copy_edited" if which == "copy" else "original_edited")


def shallow(ctx, name, kind, orig):
    """Shallow copies and slices: the same entities in another list."""
    r = ctx.rng
    if name == "sources":
        return
    obj = orig.macros if name == "prep_view" else orig
    its = list(obj)
    before = dump_all(kind, its)
    c = obj.copy() if r.random() < 0.5 and hasattr(obj, "copy") else copy.copy(obj)
    check(type(c) is type(obj) and list(map(id, c)) == list(map(id, its)), "shallow copy has other items", container=name, original=repr(obj), copy=repr(c))
    check(c == obj, "shallow copy isn't equal", container=name, original=repr(obj), copy=repr(c))
    i, j = sorted((r.randint(0, len(its)), r.randint(0, len(its))))
    sl = r.choice([slice(i, j), slice(i, None), slice(None, j), slice(None), slice(None, None, -1), slice(-2, None)])
    part = obj[sl]
    check(type(part) is type(obj) and list(map(id, part)) == list(map(id, its[sl])), "slice has other items", container=name, slice=str(sl), original=repr(obj), got=repr(part))
    check(part == part.copy(), "slice isn't equal to its copy", container=name)
    # lists are independent
    for x in (c, part):
        if len(x):
            k = r.random()
            if k < 0.5:
                x.data.pop()
            else:
                x.data.reverse()
    check(list(map(id, obj)) == list(map(id, its)) and dump_all(kind, its) == before, "editing a shallow copy or a slice changed the original", container=name)
    # containers don't share the list they are made of
    lst = list(its)
    new = type(obj)(lst)
    check(list(map(id, new)) == list(map(id, its)), "container has other items than the list it was made of", container=name)
    if lst:
        lst.pop()
        check(len(new) == len(its), "container shares the list it was made of", container=name)
        new.data.pop()
        new.data.reverse()
        check(len(lst) == len(its) - 1 and list(map(id, lst)) == list(map(id, its[:-1])), "container shares the list it was made of", container=name)
    ctx.count("shallow")
    if kind == "tag":
        cs = r.choice([t.comments for t in its])
        part = cs[i:j]
        check(type(part) is type(cs) and list(map(id, part)) == list(map(id, list(cs)[i:j])), "slice of comments has other items", got=repr(part))
        n = len(cs)
        part.append("x")
        check(len(cs) == n, "slice of comments shares the list")
        for c in cs:
            check(c.text in cs and c in cs, "comment isn't found in comments", comments=repr(cs))
        check("no such comment" not in cs and cs.raw == [c.text for c in cs], "texts of comments", comments=repr(cs))


def entity_case(ctx, kind, orig):
    r = ctx.rng
    before = dump(kind, orig)
    c = copy.deepcopy(orig)
    check(type(c) is type(orig) and c == orig and not c != orig and c is not orig, "copy of an entity isn't equal to the original", kind=kind, original=repr(orig), copy=repr(c))
    check(dump(kind, c) == before, "copy of an entity has other content", kind=kind, got=dump(kind, c), want=before)
    what = mutate(r, kind, c)
    ctx.log(kind, what)
    check(dump(kind, orig) == before, "editing a copy changed the original", kind=kind, edit=what, before=before, after=dump(kind, orig))
    if dump(kind, c) != before:
        check(c != orig, "entities are equal although their content is different", kind=kind, edit=what, a=dump(kind, c), b=before)
    ctx.count("copy_edited")
    state = dump(kind, c)
    what = mutate(r, kind, orig)
    check(dump(kind, c) == state, "editing the original changed a copy", kind=kind, edit=what, before=state, after=dump(kind, c))
    ctx.count("original_edited")
    ctx.count("entity_copies")


# -- histories of specs ------------------------------------------------------------------------------
class M:
    """Model of a spec object."""

    def __init__(self, spec, text, path, macros, sourcedir, autosave, force):
        self.spec, self.text, self.path, self.macros, self.sourcedir, self.autosave, self.force = spec, text, path, list(macros), sourcedir, autosave, force

    def key(self):
        return (self.text, self.path, tuple(self.macros), self.sourcedir, self.autosave, self.force)


EXPRS = ["%{name}-%{version}", "%{?m1}%{?m2}", "%{?ov}", "%{sources}", "%{summary}", "%{S:0}", "%{release}", "%{?m3:%{m3}}"]


class History:
    def __init__(self, ctx):
        from specfile import Specfile

        self.ctx, self.r = ctx, ctx.rng
        r = self.r
        text = (f"%global m1 {r.choice('ab')}\n%define m2 %{{m1}}x\n" + HEAD + "Source0: a-%{version}\nSource1: b-%{?m1}.%{?ov}\n\n%description\nText.\n\n%prep\n%autosetup\n\n%changelog\n"
                "* Mon Jan 01 2024 A <a@b.c> - 1-1\n- a\n")
        if r.random() < 0.3:
            text = text[:-1]
            ctx.count("newline")
        macros = [("ov", "1")] if r.random() < 0.5 else []
        path = scratch_spec(ctx, text, "h.spec")
        auto = r.random() < 0.3
        spec = Specfile(path, macros=macros, autosave=auto)
        self.files = {path: text}
        self.objs = [M(spec, text, path, macros, path.parent, auto, False)]
        ctx.log(repr(text), macros, auto)
        self.n = 0
        self.copied = self.edited = 0
        self.pool = [spec]

    def i(self, o):
        return next(i for i, x in enumerate(self.objs) if x is o)

    def verify(self):
        for o in self.objs:
            check(str(o.spec) == o.text, "content of an object changed although it wasn't edited", object=self.i(o), got=str(o.spec), want=o.text, ops=self.ctx.trace)
            got = (o.spec.path, list(o.spec.macros), o.spec.sourcedir, o.spec.autosave, o.spec.force_parse)
            check(got == (o.path, o.macros, o.sourcedir, o.autosave, o.force), "settings of an object changed", object=self.i(o), got=got, ops=self.ctx.trace)
        for p, t in self.files.items():
            check(p.read_text() == t, "content of a file differs", path=str(p), got=p.read_text(), want=t, ops=self.ctx.trace)
        for a, b in itertools.combinations(self.objs, 2):
            same = a.key() == b.key()
            check((a.spec == b.spec) is same and (a.spec != b.spec) is not same and (b.spec == a.spec) is same, "specs are (not) equal although they differ (don't)", a=a.key(), b=b.key(),
                  ops=self.ctx.trace)
            self.ctx.count("spec_equal" if same else "spec_different")

    def copy(self, o):
        if len(self.objs) > 4:
            return
        r = self.r
        k = r.random()
        if k < 0.15:
            c, d = copy.deepcopy([o.spec, o.spec])
            check(c is d, "one object copied twice in one copy")
            self.ctx.count("shared_in_list")
        elif k < 0.35:
            view = r.choice(["tags", "sections", "macro_definitions", "sources", "prep", "changelog", "lines"])
            self.ctx.log("copy in view", self.i(o), view)
            with getattr(o.spec, view)() as v:
                c = copy.deepcopy(o.spec)
                if view == "tags":
                    v.summary.value = f"in view {self.n}"
                elif view == "macro_definitions":
                    v.m1.body = f"v{self.n}"
                elif view == "sources":
                    v.append(f"viewed{self.n}")
                self.n += 1
            n = M(c, o.text, o.path, o.macros, o.sourcedir, o.autosave, o.force)
            self.objs.append(n)
            check(str(c) == o.text, "copy made inside of an open view has other content", got=str(c), want=o.text)
            o.text = str(o.spec)
            if view in ("tags", "macro_definitions", "sources"):
                check(o.text != n.text, "edit in a view during which the spec was copied was lost", view=view, ops=self.ctx.trace)
            if o.autosave:
                self.files[o.path] = o.text
            self.ctx.count("in_view")
            self.ctx.count("spec_copies")
            self.copied += 1
            return
        else:
            c = copy.deepcopy(o.spec)
        self.ctx.log("copy", self.i(o))
        self.objs.append(M(c, o.text, o.path, o.macros, o.sourcedir, o.autosave, o.force))
        self.ctx.count("spec_copies")
        self.copied += 1

    def edit(self, o):
        r, s = self.r, o.spec
        k = r.choice(["version", "tag", "macro", "source", "section", "lines", "changelog", "prep", "nothing"])
        self.n += 1
        self.ctx.log("edit", self.i(o), k)
        same = k == "nothing"
        if k == "version":
            s.version = f"{self.n}.{r.choice('12')}"
        elif k == "tag":
            with s.tags() as tags:
                tags.summary.value = f"Edited {self.n}"
        elif k == "macro":
            with s.macro_definitions() as mds:
                mds[0].body = f"e{self.n}"
        elif k == "source":
            with s.sources() as sources:
                sources.append(f"s{self.n}-%{{?m1}}")
        elif k == "section":
            with s.sections() as sections:
                sections.description.append(f"line {self.n}")
        elif k == "lines":
            with s.lines() as lines:
                lines.insert(0, f"%global m3 l{self.n}")
        elif k == "changelog":
            with s.changelog() as cl:
                cl[-1].content.append(f"- e{self.n}")
        elif k == "prep":
            with s.prep() as prep:
                prep.autosetup.options.n = f"d{self.n}"
        text = str(s)
        check(same or text != o.text, "edit was lost", edit=k, text=text, ops=self.ctx.trace)
        o.text = text
        if not same:
            if o.autosave:
                self.files[o.path] = text
            self.edited += len(self.objs) > 1
            self.ctx.count("spec_edits")

    def setting(self, o):
        r = self.r
        k = r.choice(["macros", "macros", "sourcedir", "path", "autosave", "force"])
        self.ctx.log("set", self.i(o), k)
        if k == "macros":
            if o.macros and r.random() < 0.5:
                o.spec.macros.pop()
                o.macros.pop()
            else:
                m = (r.choice(["ov", "m3"]), r.choice(["1", "2", None]))
                o.spec.macros.append(m)
                o.macros.append(m)
        elif k == "sourcedir":
            d = self.ctx.tmp / r.choice(["s1", "s2"])
            d.mkdir(exist_ok=True)
            o.spec.sourcedir = d
            o.sourcedir = d
        elif k == "path":
            self.n += 1
            p = self.ctx.tmp / f"c{self.n}.spec"
            o.spec.path = p
            o.path = p
        elif k == "autosave":
            o.autosave = o.spec.autosave = not o.autosave
        else:
            o.force = o.spec.force_parse = not o.force
        self.ctx.count("settings")

    def save(self, o):
        self.ctx.log("save", self.i(o))
        if self.r.random() < 0.2:
            with o.spec:
                pass
        else:
            o.spec.save()
        self.files[o.path] = o.text
        self.ctx.count("saved")

    def reload(self, o):
        if o.path not in self.files:
            return
        self.ctx.log("reload", self.i(o))
        o.spec.reload()
        o.text = self.files[o.path]
        self.ctx.count("reloaded")

    def expand(self, o):
        exprs = self.r.sample(EXPRS, 3)
        self.ctx.log("expand", self.i(o), exprs)
        ans = self.ctx.oracle.ask(o.text, list(map(list, o.macros)), o.sourcedir, exprs=exprs, want=("header",))
        check(ans["ok"], "harness: content isn't accepted by RPM", text=o.text, stderr=ans.get("stderr"))
        got = [o.spec.expand(e) for e in exprs]
        check(got == ans["exprs"], "expansion differs from that of a fresh RPM", object=self.i(o), exprs=exprs, got=got, rpm=ans["exprs"], text=o.text, macros=o.macros, ops=self.ctx.trace)
        if self.r.random() < 0.3:
            check(o.spec.expanded_version == ans["header"]["VERSION"], "expanded version", got=o.spec.expanded_version, ops=self.ctx.trace)
            if o.autosave:
                # reading the property opens and leaves a view
                self.files[o.path] = o.text
            check(o.spec.rpm_spec is not None and not o.spec.tainted, "parsed spec is missing or tainted", ops=self.ctx.trace)
        self.ctx.count("expansions", len(exprs))

    def dispose(self, o):
        if len(self.objs) < 2:
            return
        self.ctx.log("dispose", self.i(o))
        self.objs = [x for x in self.objs if x is not o]
        self.pool = [s for s in self.pool if s is not o.spec]
        o.spec = None
        if self.r.random() < 0.6:
            gc.collect()
        self.ctx.count("disposed")

    def step(self):
        r = self.r
        o = r.choice(self.objs)
        op = r.choices([self.copy, self.edit, self.setting, self.save, self.reload, self.expand, self.dispose], [3, 5, 2, 1.5, 1, 5, 1.5])[0]
        op(o)
        self.verify()


def run_case(ctx):
    if ctx.rng.random() < 0.5:
        return pool_case(ctx)
    h = History(ctx)
    h.copy(h.objs[0])
    for _ in range(ctx.rng.choice([8, 15, 30])):
        h.step()
    for o in list(h.objs):
        h.expand(o)
    h.verify()
    if h.copied and h.edited:
        ctx.nontrivial(ctx.trace)


# -- regressions -------------------------------------------------------------------------------------
def _open(ctx, body, name="f.spec", **kw):
    from specfile import Specfile

    return Specfile(scratch_spec(ctx, HEAD + body, name), **kw)


def f_positionals(ctx):
    s = _open(ctx, "Source0: s\nPatch1: a\nPatch2: b\n%description\n%prep\n%patch 1\n%patch 2\n%autosetup -n a\n%autosetup -n a b\n")
    with s.prep() as prep:
        ms = list(prep.macros)
    for a, b in itertools.combinations(ms, 2):
        check(a != b, "different %prep macros are equal", a=repr(a), b=repr(b))
    check(ms.index(ms[1]) == 1, "macro was found at a position of a different one")


def f_sections(ctx):
    s = _open(ctx, "%description\na\n%build\n%install\n%check\n")
    with s.sections() as sections:
        check(sections.build != sections.install, "different sections are equal")
        check(sections.index(sections.check) == sections.find("check"), "section was found at a position of a different one")
        check(sections.build == [] and sections.description == ["a"], "section isn't equal to the list of its lines")


def f_newline(ctx):
    from specfile import Specfile

    p = scratch_spec(ctx, HEAD + "%description\n", "n.spec")
    a = Specfile(p)
    p.write_text(HEAD + "%description")
    b = Specfile(p)
    check(a != b and str(a) != str(b), "specs with different content are equal")


def f_pools(ctx):
    for _ in range(3):
        pool_case(ctx)


def fixed_cases():
    return [(n[2:], f) for n, f in sorted(globals().items()) if n.startswith("f_")]
