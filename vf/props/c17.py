"""C17 - views nest, commit once and save only when asked."""
import copy
import datetime
import gc

from vf.core import check
from vf.util import enc, line_diff, scratch_spec, split

ID = "C17"
LEVEL = "exploration"
CASES = {"quick": 1200, "thorough": 24000}
RULE = """Histories over 1-3 open specs, each modelled as a list of lines of its own: properly nested stacks (up to 7 deep) of
sections, tags (default, by name, by section object, positional and keyword), changelog (default and by section object), prep,
sources and patches (with different options) views, plus raw lines (also removed altogether and put back) and macro definitions as outermost views; edits at every
level (values, comments, added tags, lines, entries, sources and patches in tags and lists, spec properties and methods used
while views are open), views requested again while open, exceptions of several kinds raised at any depth and caught at any
level, views interleaved over specs, contents taken without a with-block and then modified, views created and dropped, save,
reload, with-blocks over the spec and autosave. Monitors: identity of views requested again, values read at every level, the
line model after the outermost view, the exception that propagates, and the bytes on disk after every event. Non-trivial: at
least 3 edits in nested views; distinct by history."""
ASSUMPTIONS = ["views are left in the reverse order of entering them", "a line is modified through one view at a time", "one thread"]
REQUIRED = ["edits", "nested_edits", "same_view", "read_inside", "exceptions", "exceptions_caught_inside", "committed", "autosaved", "saved", "with_spec", "reloads", "changed_on_disk",
            "discarded", "content_mutated", "dropped", "interleaved", "depth4", "disk_checks", "setters_inside", "equal_sections", "lines_outermost", "emptied", "macro_definitions"] + [
    "view_" + v for v in ("sections", "tags", "tags_named", "tags_section", "changelog", "changelog_section", "prep", "sources", "patches")]


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class Cell:
    """A line of the model: constant text around a changing value."""

    def __init__(self, pre, val="", post=""):
        self.pre, self.val, self.post = pre, val, post

    @property
    def text(self):
        return self.pre + self.val + self.post


class Model:
    def __init__(self, r, n):
        self.r, self.n = r, n
        self.c = []
        self.h = {}  # handles
        self.build()

    def add(self, *a, h=None):
        cell = Cell(*a)
        self.c.append(cell)
        if h:
            self.h.setdefault(h, []).append(cell)
        return cell

    def lines(self):
        return [c.text for c in self.c]

    def after(self, cell, *new):
        i = [id(c) for c in self.c].index(id(cell))
        self.c[i + 1:i + 1] = new

    def build(self):
        r = self.r
        a = self.add
        if r.random() < 0.6:
            a("%global mac", "", " ")
            self.c.pop()
            a("%global mac ", "m0", h="macro")
        a("# ", "comment0", h="comment")
        a("Name: ", "test")
        a("Version: ", "1", h="version")
        a("Release: ", "1%{?dist}", h="release")
        a("Summary: ", "sum", h="summary")
        a("License:   ", "MIT", h="license")
        if r.random() < 0.5:
            a("")
        if r.random() < 0.7:
            a("%if 1")
            a("URL: ", "http://u", h="url")
            a("%endif")
        self.tagsources = self.tagpatches = 0
        for i in range(r.choice([0, 1, 2])):
            a(f"Source{i}:  ", f"s{i}.tar", h="source")
            self.tagsources += 1
        for i in range(r.choice([0, 1, 2])):
            a(f"Patch{i}: ", f"p{i}.patch", h="patch")
            self.tagpatches += 1
        a("BuildArch: ", "noarch", h="lasttag")
        a("")
        a("%description")
        a("", "described", h="line")
        a("")
        self.subs = []
        equal = r.random() < 0.5
        for i in range(r.choice([0, 1, 2, 2])):
            a(f"%package sub{i}")
            self.subs.append({"id": f"package sub{i}", "summary": a("Summary: ", "same" if equal else f"sub{i}"), "last": a("Requires: ", "same" if equal else f"r{i}")})
            a("")
            a(f"%description sub{i}")
            a("same" if equal else f"d{i}")
            a("")
        self.equal = equal and len(self.subs) > 1
        a("%prep")
        if self.tagsources:
            a("%setup -q -n ", "dir0", h="setup")
        if self.tagpatches and r.random() < 0.8:
            a("%patch -P 0 -p", "1", h="patchmacro")
        a("echo prep")
        a("")
        a("%build")
        for i in range(r.randint(1, 3)):
            a("make ", f"b{i}", h="build")
        a("")
        self.lists = {}
        for which in ("source", "patch"):
            if r.random() < 0.5:
                a(f"%{which}list")
                cells = [a("", f"{which[0]}l{i}") for i in range(r.choice([1, 1, 2]))]
                self.lists[which] = cells
                a("")
        a("%install")
        a("install ", "i", h="install")
        a("")
        a("%files")
        a("/f")
        self.changelog = []
        if r.random() < 0.85:
            self.clhead = a("%changelog")
            for i in range(r.choice([0, 1, 1, 2])):
                if i:
                    a("")
                hd = a("* Tue May 0%d 2021 x <a@b> - " % (8 - i), f"1-{9 - i}")
                self.changelog.append((hd, [a("- ", f"entry{i}")]))
        else:
            self.clhead = None


VIEWS = ["sections", "tags", "tags", "tags_named", "tags_section", "changelog", "changelog_section", "prep", "sources", "patches"]


class Spec:
    def __init__(self, ctx, n):
        from specfile import Specfile

        r = ctx.rng
        self.ctx, self.n = ctx, n
        self.m = Model(r, n)
        self.trail = r.random() < 0.8
        text = "\n".join(self.m.lines()) + ("\n" if self.trail else "")
        self.path = scratch_spec(ctx, text, f"s{n}.spec", sub=f"o{n}")
        self.spec = Specfile(self.path, autosave=r.random() < 0.35)
        self.disk = enc(text)
        self.open = []  # stack of (key, object) of open views
        self.dirty = 0
        ctx.count("equal_sections", self.m.equal)

    def want(self):
        return "\n".join(self.m.lines()) + ("\n" if self.trail else "")


class Hist:
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng
        self.specs = [Spec(ctx, i) for i in range(self.r.choice([1, 1, 2, 3]))]
        if len(self.specs) > 1 and self.r.random() < 0.3:
            # identical specs
            import shutil
            from specfile import Specfile

            a, b = self.specs[:2]
            b.m = copy.deepcopy(a.m, {id(self.r): self.r})
            b.trail = a.trail
            shutil.copyfile(a.path, b.path)
            b.disk = a.disk
            b.spec = Specfile(b.path, autosave=b.spec.autosave)
        self.k = 0
        self.nested = 0
        self.depth = 0
        self.stack = []

    def log(self, *w):
        self.ctx.log("  " * self.depth, *w)

    def tok(self):
        self.k += 1
        return f"t{self.k}"

    def disk(self, note):
        for s in self.specs:
            got = s.path.read_bytes()
            check(got == s.disk, "file on disk is not what was last saved", after=note, spec=s.n, got=got, want=s.disk, history=self.ctx.trace)
            self.ctx.count("disk_checks")

    def committed(self, s, note):
        got, want = str(s.spec), s.want()
        check(got == want, "content after leaving the outermost view differs from the changes made", after=note,
              diff=line_diff(split(want)[0], split(got)[0]), got=got, want=want, history=self.ctx.trace)
        self.ctx.count("committed")

    def others(self, s):
        for o in self.specs:
            if o is not s and not o.open:
                check(str(o.spec) == o.want(), "content of another spec changed", diff=line_diff(split(o.want())[0], split(str(o.spec))[0]), history=self.ctx.trace)

    # -- views ---------------------------------------------------------------------------------
    def view(self, s, kind):
        """(key of the view, function requesting it, kind)"""
        r, m, sp = self.r, s.m, s.spec
        if kind == "sections":
            return "sections", sp.sections
        if kind == "tags":
            return "tags:package", r.choice([sp.tags, lambda: sp.tags("package"), lambda: sp.tags(section="package")])
        if kind == "tags_named":
            if not m.subs:
                return None
            sub = r.choice(m.subs)["id"]
            return "tags:" + sub, r.choice([lambda: sp.tags(sub), lambda: sp.tags(section=sub)])
        if kind == "tags_section":
            secs = self.opened(s, "sections")
            if secs is None:
                return None
            sub = r.choice(["package"] + [x["id"] for x in m.subs])
            sec = getattr(secs, sub)
            return "tags:" + sub, r.choice([lambda: sp.tags(sec), lambda: sp.tags(section=sec)])
        if kind == "changelog":
            return "changelog", sp.changelog
        if kind == "changelog_section":
            secs = self.opened(s, "sections")
            if secs is None or m.clhead is None:
                return None
            sec = secs.changelog
            return "changelog", r.choice([lambda: sp.changelog(sec), lambda: sp.changelog(section=sec)])
        if kind == "prep":
            return "prep", sp.prep
        if kind in ("sources", "patches"):
            opts = {}
            if r.random() < 0.5:
                opts["allow_duplicates"] = r.random() < 0.5
            if r.random() < 0.3:
                opts["default_source_number_digits"] = r.choice([1, 4])
            full = (opts.get("allow_duplicates", False), False, opts.get("default_source_number_digits", 1))
            f = getattr(sp, kind)
            return f"{kind}:{full}", r.choice([lambda: f(**opts), lambda: f(*full)])
        raise AssertionError(kind)

    def opened(self, s, key):
        for k, o in s.open:
            if k == key:
                return o
        return None

    # -- edits ---------------------------------------------------------------------------------
    def edit(self, s, key, v):
        """Edits through a view and the model alike; returns whether anything was done."""
        r, m = self.r, s.m
        h = m.h
        t = self.tok()
        if key == "sections":
            what = r.choice(["build", "install", "line", "append"])
            if what == "append":
                cell = Cell("make ", t)
                last = h["build"][-1]
                m.after(last, cell)
                h["build"].append(cell)
                v.build.insert(len(h["build"]) - 1, cell.text)
                return True
            cells = h[what]
            i = r.randrange(len(cells))
            cells[i].val = t
            sec = {"build": "build", "install": "install", "line": "description"}[what]
            getattr(v, sec)[i] = cells[i].text
            return True
        if key == "tags:package":
            what = r.choice(["summary", "license", "comment", "url", "add", "set"])
            if what == "comment":
                h["comment"][0].val = t
                v.name.comments[0].text = t
                return True
            if what == "url":
                if "url" not in h:
                    return False
                h["url"][0].val = t
                v.url.value = t
                return True
            if what == "add":
                from specfile.tags import Comments, Tag

                cell = Cell("Requires: ", t)
                last = h["lasttag"][-1]
                i = [x.name + x.value for x in v].index(last.pre.split(":")[0] + last.val)
                m.after(last, cell)
                h["lasttag"].append(cell)
                v.insert(i + 1, Tag("Requires", t, ": ", Comments(), context=s.spec))
                return True
            if what == "set":
                h["license"][0].val = t
                v.license = copy.deepcopy(v.license)
                v.license.value = t
                return True
            h[what][0].val = t
            getattr(v, what).value = t
            return True
        if key.startswith("tags:"):
            sub = next(x for x in m.subs if "tags:" + x["id"] == key)
            if r.random() < 0.7:
                sub["summary"].val = t
                v.summary.value = t
            else:
                sub["last"].val = t
                v.requires.value = t
            return True
        if key == "changelog":
            if v is None:
                return False
            from specfile.changelog import ChangelogEntry

            what = r.choice(["evr", "content", "append", "entry", "delete"])
            if what == "entry" or not m.changelog:
                date = datetime.date(2022, 1, 1 + self.k % 28)
                e = ChangelogEntry.assemble(date, "y <c@d>", [f"- {t}"], "2-1", append_newline=bool(m.changelog))
                new = [Cell(e.header[:-3], "2-1"), Cell("- ", t)]
                m.after(m.clhead, *(new + ([Cell("")] if m.changelog else [])))
                m.changelog.insert(0, (new[0], [new[1]]))
                v.append(e)
                return True
            i = r.randrange(len(m.changelog))
            hd, cont = m.changelog[i]
            e = v[len(m.changelog) - 1 - i]
            if what == "delete" and len(m.changelog) > 1 and i == 0:
                j = [id(c) for c in m.c].index(id(hd))
                del m.c[j:j + 2 + len(cont)]
                m.changelog.pop(0)
                del v[-1]
                return True
            if what == "evr":
                hd.val = f"3-{self.k}"
                e.header = hd.text
            elif what == "append":
                cell = Cell("- ", t)
                m.after(cont[-1], cell)
                cont.append(cell)
                e.content.append(cell.text)
            else:
                j = r.randrange(len(cont))
                cont[j].val = t
                e.content[j] = cont[j].text
            return True
        if key == "prep":
            if "setup" in h and r.random() < 0.6:
                h["setup"][0].val = t
                v.setup.options.n = t
                return True
            if "patchmacro" in h:
                h["patchmacro"][0].val = str(self.k % 9)
                v.patch.options.p = self.k % 9
                return True
            return False
        which = "source" if key.startswith("sources") else "patch"
        cells = h.get(which, []) + m.lists.get(which, [])
        if not cells:
            return False
        if r.random() < 0.6:
            i = r.randrange(len(cells))
            cells[i].val = t
            v[i].location = t
        elif which in m.lists:
            cell = Cell("", t)
            m.after(m.lists[which][-1], cell)
            m.lists[which].append(cell)
            v.append(t)
        else:
            n = len(h[which])
            cell = Cell(h[which][-1].pre.replace(str(n - 1), str(n)), t)
            m.after(h[which][-1], cell)
            h[which].append(cell)
            v.append(t)
        return True

    def read(self, s, key, v):
        m, h = s.m, s.m.h
        if key == "sections":
            got = [v.build[i] for i in range(len(h["build"]))]
            want = [c.text for c in h["build"]]
        elif key == "tags:package":
            got = [v.summary.value, v.license.value, v.name.comments[0].text] + ([v.url.value] if "url" in h else [])
            want = [h["summary"][0].val, h["license"][0].val, h["comment"][0].val] + ([h["url"][0].val] if "url" in h else [])
        elif key.startswith("tags:"):
            sub = next(x for x in m.subs if "tags:" + x["id"] == key)
            got, want = [v.summary.value, v.requires.value], [sub["summary"].val, sub["last"].val]
        elif key == "changelog":
            got = None if v is None else [(e.header, e.content) for e in reversed(v)]
            want = None if m.clhead is None else [(hd.text, [c.text for c in cont]) for hd, cont in m.changelog]
        elif key == "prep":
            got = [v.setup.options.n if "setup" in h else None, v.patch.options.p if "patchmacro" in h else None]
            want = [h["setup"][0].val if "setup" in h else None, int(h["patchmacro"][0].val) if "patchmacro" in h else None]
        else:
            which = "source" if key.startswith("sources") else "patch"
            got = [x.location for x in v]
            want = [c.val for c in h.get(which, []) + m.lists.get(which, [])]
        check(got == want, "view doesn't show changes made so far", view=key, got=got, want=want, history=self.ctx.trace)
        self.ctx.count("read_inside")

    def setter(self, s):
        """Convenience properties and methods; work through views of their own."""
        r, m, h = self.r, s.m, s.m.h
        t = self.tok()
        what = r.choice(["summary", "license", "version", "release", "changelog", "patch", "read", "with"])
        self.log("spec", s.n, "method", what, t)
        if what in ("summary", "license"):
            setattr(s.spec, what, t)
            h[what][0].val = t
        elif what == "version":
            s.spec.version = f"1.{self.k}"
            h["version"][0].val = f"1.{self.k}"
        elif what == "release":
            s.spec.release = str(self.k)
            h["release"][0].val = f"{self.k}%{{?dist}}"
        elif what == "changelog":
            s.spec.add_changelog_entry(f"- {t}", author="z", email="e@f", timestamp=datetime.date(2023, 5, 17), evr="7-7")
            if m.clhead is not None:
                new = [Cell("* Wed May 17 2023 z <e@f> - ", "7-7"), Cell("- ", t)]
                m.after(m.clhead, *(new + ([Cell("")] if m.changelog else [])))
                m.changelog.insert(0, (new[0], [new[1]]))
        elif what == "patch":
            if not h.get("patch") or "patch" in m.lists:
                return False
            n = len(h["patch"])
            s.spec.add_patch(t)
            cell = Cell(h["patch"][-1].pre.replace(str(n - 1), str(n)), t)
            m.after(h["patch"][-1], cell)
            h["patch"].append(cell)
        elif what == "read":
            check(s.spec.summary == h["summary"][0].val and s.spec.version == h["version"][0].val and s.spec.raw_release == h["release"][0].val, "property doesn't show changes made so far",
                  got=[s.spec.summary, s.spec.version, s.spec.raw_release], history=self.ctx.trace)
            return True
        else:
            return False
        s.dirty += 1
        if s.open:
            self.nested += 1
            self.ctx.count("setters_inside")
        elif s.spec.autosave:
            s.disk = enc(s.want())
        return True

    # -- nesting -------------------------------------------------------------------------------
    def level(self, s=None):
        """Opens a view and does things inside it; exceptions may propagate."""
        r, ctx = self.r, self.ctx
        s = s or r.choice(self.specs)
        kind = r.choice(VIEWS)
        pick = self.view(s, kind)
        if pick is None:
            return
        key, make = pick
        known = self.opened(s, key)
        outer = not s.open
        if self.stack and self.stack[-1] is not s:
            ctx.count("interleaved")
        self.log("enter", f"s{s.n}", kind, key)
        exc = None
        held = make() if r.random() < 0.2 else None
        try:
            with held or make() as v:
                held = None
                self.depth += 1
                if known is not None:
                    check(v is known, "requesting an open view gives another object", view=key, history=ctx.trace)
                    if r.random() < 0.3:
                        check(make().content is known, "content of an open view is another object", view=key, history=ctx.trace)
                    ctx.count("same_view")
                ctx.count("view_" + kind)
                s.open.append((key, v))
                self.stack.append(s)
                ctx.count("depth4", len(s.open) >= 4)
                try:
                    for _ in range(r.randint(0, 4)):
                        p = r.random()
                        if p < 0.4:
                            if self.edit(s, key, v):
                                self.log("edit", key, f"t{self.k}")
                                ctx.count("edits")
                                s.dirty += 1
                                if len(s.open) > 1:
                                    self.nested += 1
                                    ctx.count("nested_edits")
                        elif p < 0.55:
                            self.read(s, key, v)
                        elif p < 0.65:
                            self.setter(r.choice(self.specs) if r.random() < 0.2 else s)
                        elif p < 0.93:
                            if self.depth < 8:
                                self.guarded(s if r.random() < 0.8 else None)
                        elif p < 0.97:
                            e = r.choice([Boom, BaseBoom, KeyError, AttributeError, StopIteration, RuntimeError, IndexError, TypeError, GeneratorExit])("boom")
                            self.log("raise", type(e).__name__)
                            ctx.count("exceptions")
                            self.raised = e
                            raise e
                        else:
                            self.disk("event in " + key)
                finally:
                    s.open.pop()
                    self.stack.pop()
                    self.depth -= 1
        except BaseException as e:  # judged below
            exc = e
        self.log("left", f"s{s.n}", key, repr(exc) if exc else "")
        if exc is None and self.raised is not None:
            check(False, "exception raised inside a view doesn't propagate", view=key, raised=repr(self.raised), history=ctx.trace)
        if exc is not None and exc is not self.raised:
            raise exc
        if outer:
            self.committed(s, f"leaving {key}")
            if s.spec.autosave:
                s.disk = enc(s.want())
                ctx.count("autosaved")
            self.others(s)
        self.disk(f"leaving {key}")
        if exc is not None:
            raise exc

    raised = None

    def guarded(self, s=None, catch=False):
        """A level whose exceptions are sometimes caught here."""
        if self.depth and not catch and self.r.random() < 0.6:
            return self.level(s)
        try:
            self.level(s)
        except BaseException as e:
            if e is not self.raised:
                raise
            self.raised = None
            e.__traceback__ = None
            if self.depth:
                self.ctx.count("exceptions_caught_inside")

    # -- top-level events ------------------------------------------------------------------------
    def lines_view(self, s):
        """Raw lines as the outermost view."""
        r = self.r
        self.log("enter", f"s{s.n}", "lines")
        with s.spec.lines() as lines:
            self.depth += 1
            s.open.append(("lines", lines))
            for _ in range(r.randint(1, 3)):
                check(lines == s.m.lines(), "raw lines don't show changes made so far", diff=line_diff(s.m.lines(), lines), history=self.ctx.trace)
                with s.spec.lines() as again:
                    check(again is lines, "requesting open lines gives another object", history=self.ctx.trace)
                p = r.random()
                if p < 0.4:
                    c = r.choice([c for c in s.m.h["build"]])
                    i = [id(x) for x in s.m.c].index(id(c))
                    c.val = self.tok()
                    lines[i] = c.text
                    s.dirty += 1
                elif p < 0.6:
                    self.macros(s)
                else:
                    self.guarded(s, catch=True)
            s.open.pop()
            self.depth -= 1
        self.ctx.count("lines_outermost")
        self.committed(s, "leaving lines")
        if s.spec.autosave:
            s.disk = enc(s.want())
        self.disk("leaving lines")

    def emptied(self, s):
        """All lines removed in one view and put back (in full or in part) in another one, possibly with exceptions."""
        r = self.r
        self.log("emptied", f"s{s.n}")
        for step in range(2):
            boom = Boom("x") if r.random() < 0.4 else None
            try:
                with s.spec.lines() as lines:
                    if step:
                        check(lines == [], "raw lines don't show changes made so far", got=list(lines), history=self.ctx.trace)
                        lines.extend(s.m.lines())
                    else:
                        r.choice([lambda: lines.clear(), lambda: lines.__delitem__(slice(None)), lambda: lines.__setitem__(slice(None), [])])()
                    self.disk("event in lines")
                    if boom:
                        raise boom
            except Boom as e:
                check(e is boom, "another exception than the one raised", got=repr(e))
                boom = None
            check(boom is None, "exception raised inside a view doesn't propagate", view="lines", history=self.ctx.trace)
            if step:
                self.committed(s, "lines put back")
            else:
                check(str(s.spec).strip() == "", "removed lines are still there", got=str(s.spec), history=self.ctx.trace)
            if s.spec.autosave:
                s.disk = enc(str(s.spec))
            self.disk("emptied" if step == 0 else "lines put back")
            self.ctx.count("emptied")
        s.dirty += 1

    def macros(self, s):
        if "macro" not in s.m.h:
            return
        outer = not s.open
        t = self.tok()
        self.log("macro_definitions", t)
        with s.spec.macro_definitions() as md:
            with s.spec.macro_definitions() as again:
                check(again is md, "requesting open macro definitions gives another object", history=self.ctx.trace)
                again.mac.body = t
        s.m.h["macro"][0].val = t
        s.dirty += 1
        self.ctx.count("macro_definitions")
        if outer:
            self.committed(s, "leaving macro definitions")
            if s.spec.autosave:
                s.disk = enc(s.want())
            self.disk("leaving macro definitions")

    def content(self, s):
        """Modifies content obtained without a with-block."""
        r = self.r
        for _ in range(r.randint(1, 3)):
            pick = self.view(s, r.choice(VIEWS))
            if pick is None:
                continue
            key, make = pick
            self.log("content", f"s{s.n}", key)
            v = make().content
            saved = copy.deepcopy(s.m, {id(self.r): self.r})
            self.edit(s, key, v)
            s.m = saved
            if r.random() < 0.5:
                w = make().content
                check(w is not v or v is None, "content obtained again is the modified one", view=key, history=self.ctx.trace)
                self.read(s, key, w)
            if r.random() < 0.5:
                with make() as w:
                    self.read(s, key, w)
            self.ctx.count("content_mutated")
            del v
            if s.spec.autosave:
                s.disk = enc(s.want())
            self.committed(s, "modifying content obtained without a with-block")
        self.disk("content")

    def dropped(self, s):
        pick = self.view(s, self.r.choice(VIEWS))
        if pick is None:
            return
        key, make = pick
        self.log("dropped", f"s{s.n}", key)
        x = make()
        del x
        if self.r.random() < 0.3:
            gc.collect()
        self.ctx.count("dropped")
        if s.spec.autosave:
            s.disk = enc(s.want())
        self.committed(s, "creating and dropping a view")
        self.disk("dropping a view")

    def save(self, s):
        self.log("save", f"s{s.n}")
        if self.r.random() < 0.2:
            s.path = s.path.with_name(f"moved{self.k}.spec")
            s.spec.path = s.path if self.r.random() < 0.5 else str(s.path)
        s.spec.save()
        s.disk = enc(s.want())
        s.saved = copy.deepcopy(s.m, {id(self.r): self.r})
        self.disk("saving")
        self.ctx.count("saved")

    def reload(self, s):
        self.log("reload", f"s{s.n}")
        if s.disk != enc(s.want()):
            self.ctx.count("discarded")
        if self.r.random() < 0.3 and not s.disk.endswith(b"\n\n") and s.disk.strip():
            # another program changes the file
            s.disk = s.disk[:-1] if s.disk.endswith(b"\n") else s.disk + b"\n"
            s.trail = s.disk.endswith(b"\n")
            s.path.write_bytes(s.disk)
            self.log("newline toggled on disk")
            self.ctx.count("changed_on_disk")
        # the model that corresponds to the file
        s.spec.reload()
        check(enc(str(s.spec)) == s.disk, "content after reload differs from the file", history=self.ctx.trace)
        self.disk("reloading")
        self.ctx.count("reloads")
        if s.disk != enc(s.want()):
            m = getattr(s, "saved", None)
            if m is not None and enc("\n".join(m.lines()) + ("\n" if s.trail else "")) == s.disk:
                s.m = copy.deepcopy(m, {id(self.r): self.r})
            else:
                return False
        return True

    def with_spec(self, s):
        self.log("with spec", f"s{s.n}")
        boom = Boom("x") if self.r.random() < 0.4 else None
        try:
            with s.spec as sp:
                check(sp is s.spec, "with-block over a spec gives another object")
                self.depth += 1
                for _ in range(self.r.randint(1, 2)):
                    self.guarded(s, catch=True)
                self.depth -= 1
                self.disk("inside with-block over the spec")
                if boom:
                    raise boom
        except Boom as e:
            check(e is boom, "another exception than the one raised", got=repr(e))
            boom = None
        check(boom is None, "exception raised in a with-block over a spec doesn't propagate", history=self.ctx.trace)
        s.disk = enc(s.want())
        self.disk("with-block over the spec")
        self.ctx.count("with_spec")


def run_case(ctx):
    r = ctx.rng
    h = Hist(ctx)
    for s in h.specs:
        ctx.log(f"s{s.n} autosave={s.spec.autosave}", repr(s.want()))
        s.saved = copy.deepcopy(s.m, {id(r): r})
    for _ in range(r.randint(6, 16)):
        s = r.choice(h.specs)
        p = r.random()
        if p < 0.55:
            h.guarded(s)
        elif p < 0.62:
            h.lines_view(s)
        elif p < 0.65:
            h.emptied(s)
        elif p < 0.68:
            h.macros(s)
        elif p < 0.75:
            h.content(s)
        elif p < 0.79:
            h.dropped(s)
        elif p < 0.86:
            h.save(s)
        elif p < 0.90:
            h.with_spec(s)
        elif p < 0.95:
            h.setter(s)
            h.committed(s, "method")
            h.disk("method")
        else:
            if not h.reload(s):
                break
        check(not s.open, "harness: unbalanced views")
    if h.nested >= 3:
        ctx.nontrivial(tuple(ctx.trace))


# ---------------------------------------------------------------------------------------------------
MIN = "Name: a\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n"


def _open(ctx, body, name="f", **kw):
    from specfile import Specfile

    p = scratch_spec(ctx, MIN + body, name + ".spec")
    return Specfile(p, **kw), p


def f_key_error(ctx):
    s, _ = _open(ctx, "%description\n")
    for e in (KeyError("x"), AttributeError("x"), StopIteration("x"), GeneratorExit("x"), RuntimeError("x"), Boom("x")):
        for f in (s.sections, s.tags, s.prep, s.changelog, s.sources, s.patches, s.lines, s.macro_definitions):
            try:
                with f():
                    with f():
                        raise e
            except BaseException as got:
                check(got is e, "another exception propagates", got=repr(got), raised=repr(e), view=f.__name__)
            else:
                check(False, "exception was swallowed", raised=repr(e), view=f.__name__)


def f_equal_sections(ctx):
    body = "%description\n%package x\nSummary: e\n%description x\n%package y\nSummary: e\n%description y\n"
    s, _ = _open(ctx, body)
    with s.sections() as secs:
        a, b = [x for x in secs if x.id.startswith("package ")]
        with s.tags(a) as ta, s.tags(b) as tb:
            check(ta is not tb, "views of different sections are the same object")
            ta.summary.value = "1"
            tb.summary.value = "2"
            with s.tags("package y") as tc:
                check(tc is tb, "view by name and by section differ")
    check(str(s) == MIN + body.replace("Summary: e", "Summary: 1", 1).replace("Summary: e", "Summary: 2"), "wrong content", got=str(s))


def f_equal_changelogs(ctx):
    ch = "%changelog\n* Tue May 04 2021 x <a@b> - 1-1\n- a\n"
    body = "%description\n%if 1\n" + ch + "%else\n" + ch + "%endif\n"
    s, _ = _open(ctx, body)
    with s.sections() as secs:
        a, b = [x for x in secs if x.id == "changelog"]
        with s.changelog() as d, s.changelog(a) as ca, s.changelog(section=b) as cb:
            check(ca is d and cb is not ca, "wrong views of changelogs")
            ca[0].content[0] = "- A"
            cb[0].content[0] = "- B"
    check(str(s) == MIN + body.replace("- a", "- A", 1).replace("- a", "- B"), "wrong content", got=str(s))


def f_nested_lists(ctx):
    for kind, name in (("sources", "sourcelist"), ("patches", "patchlist")):
        s, _ = _open(ctx, f"%description\n%{name}\na\n")
        f = getattr(s, kind)
        with f() as x:
            with f(allow_duplicates=True) as y:
                y.append("b")
            check([i.location for i in x] == ["a", "b"], "inner change isn't visible")
            with f(default_source_number_digits=3) as z:
                z[0].location = "c"
        check(str(s) == MIN + f"%description\n%{name}\nc\nb\n", "inner changes were lost", got=str(s))


def f_nested_changelog(ctx):
    s, _ = _open(ctx, "%description\n%changelog\n* Tue May 04 2021 x <a@b> - 1-1\n- a\n")
    with s.changelog() as c:
        s.add_changelog_entry("- b", author="q", email="w", timestamp=datetime.date(2022, 5, 17), evr="2-1")
        c[0].content.append("- c")
    check(str(s).endswith("%changelog\n* Tue May 17 2022 q <w> - 2-1\n- b\n\n* Tue May 04 2021 x <a@b> - 1-1\n- a\n- c\n"), "changes were lost", got=str(s))


def f_local_class(ctx):
    from specfile import Specfile

    class Sub(Specfile):
        pass

    p = scratch_spec(ctx, MIN + "%description\n", "l.spec")
    s = Sub(p)
    with s.tags() as t:
        t.summary.value = "x"
    check(s.summary == "x", "edit was lost")


def f_failed_open(ctx):
    """A view that can't be opened leaves no view open."""
    s, p = _open(ctx, "%description\n")
    for _ in range(2):
        try:
            with s.tags("nosuch"):
                pass
        except AttributeError:
            pass
        else:
            check(False, "view of a missing section was opened")
        with s.tags() as t:
            t.summary.value += "x"
    check(str(s) == MIN.replace("Summary: s", "Summary: sxx") + "%description\n", "wrong content", got=str(s))
    check(p.read_text() == MIN + "%description\n", "file changed")


def fixed_cases():
    return [(n[2:], f) for n, f in sorted(globals().items()) if n.startswith("f_")]
