"""C13 - expansion always reflects the spec's current content and overrides."""
import copy
import gc
import re

from vf.core import check
from vf.gen import generate
from vf.util import line_diff, scratch_spec, split

ID = "C13"
LEVEL = "exploration"
CASES = {"quick": 1000, "thorough": 9000}
RULE = """Histories of 8-40 operations over up to five spec objects alive in one process: edits through every view, breaking
and repairing the content, reloads, changes of overrides and of the source directory, expansions with and without extra
macros, deep copies, disposal of objects, reading views, expanded properties, the parsed spec and the list of active
macros. After every operation that yields a result, the result is compared with that of a fresh RPM process given the
object's current content, overrides and source directory. All specs define and undefine the same pool of macros, including
configuration macros. Non-trivial: at least two objects, one edit and five results compared; distinct by history."""
ASSUMPTIONS = ["expanded expressions don't define macros themselves", "files read while parsing don't change",
               "no rpm.spec instance is held across operations (known finding)"]
REQUIRED = ["expansions", "extra_macros", "properties", "release_without_dist", "parsed_spec", "parsed_sections", "active_macros", "edit_version", "edit_macro", "edit_tag",
            "edit_source", "edit_section", "edit_comment_out", "broken", "repaired", "reloaded", "reloaded_changed", "overrides",
            "override_removed", "sourcedir", "copied", "disposed", "views_read", "switches", "config_macro_redefined", "lua_tables",
            "rejected_compared", "same_content_objects", "tag_values", "locations", "extra_removed"]

POOL = [f"pm{i}" for i in range(6)]
CONFIG = ["dist", "_bindir", "_sourcedir", "_smp_mflags", "optflags", "_docdir", "_vendor"]
PROBES = (["%{?" + m + "}" for m in POOL] + ["%{" + m + "}" for m in POOL[:3]] + ["%{?" + m + ":set}" for m in CONFIG] +
          ["%{?" + m + "}" for m in CONFIG] +
          ["%{name}-%{version}-%{release}", "%{?epoch}", "%{summary}", "%{?url}", "%{sources}", "%{patches}", "%{?S:0}", "%{S:0}", "%{P:1}",
           "%{?SOURCE0} %{?PATCH1}", "%{?ex1}%{?ex2}", "%{?ov1}%{?ov2}", "%{with bc}", "%{without bc}", "%{?param:%param a b}", "%{buildroot}",
           "%{?pm0:%{pm0}x}%{!?pm0:none}", "%[1 + 0%{?num}]", "%{expr:0%{?num} > 3}", "%{lua:print(rpm.expand('%{?pm1}'))}", "%{nil}",
           "%(echo %{?pm2})", "%{?cnd}", "%{?lm}", "%{license}", "%{version}%{?dist}", "%%{pm0}", "%{?__python3}"])


def safe(fn):
    from specfile.exceptions import RPMException

    try:
        return fn()
    except RPMException:
        return None


class SpecGen:
    def __init__(self, rng):
        self.r = rng
        self.n = 0

    def word(self):
        self.n += 1
        return self.r.choice(["a", "b", "v1", "x y", "1.2"]) + str(self.n)

    def line(self):
        r = self.r
        k = r.random()
        m = r.choice(POOL)
        if k < 0.3:
            return [f"%{r.choice(['global', 'define'])} {m} {r.choice([self.word(), '%{?' + r.choice(POOL) + '}' + self.word(), '%{name}'])}"]
        if k < 0.36:
            return [f"%undefine {m}"]
        if k < 0.44:
            c = r.choice(CONFIG)
            return [f"%global {c} /{self.word().replace(' ', '')}" if r.random() < 0.6 else f"%undefine {c}"]
        if k < 0.5:
            return [f"%global num {r.randint(0, 9)}"]
        if k < 0.55:
            return [f"%bcond_{r.choice(['with', 'without'])} bc"]
        if k < 0.6:
            return ["%global param(-) %{1}/%{?2}/" + self.word()]
        if k < 0.66:
            return [f"%if 0%{{?num}} > {r.randint(0, 9)}", f"%global cnd {self.word()}", f"Provides: {self.word().split()[0]}", "%else", f"%global cnd {self.word()}", "%endif"]
        if k < 0.7:
            return [f"%{{lua: rpm.define('lm {self.word()}')}}"]
        if k < 0.74:
            return [f"%{{!?{m}:%global {m} {self.word()}}}"]
        if k < 0.8:
            return [f"%{{?{m}:%undefine {m}}}"]
        if k < 0.87:
            return [f"Requires: {self.word().replace(' ', '')}"]
        if k < 0.9:
            return [r.choice(["ExclusiveArch: nosuch", "ExcludeArch: x86_64", "ExclusiveOS: linux"])]
        return [f"%global {m} %{{expand:", self.word(), "}"]

    def text(self):
        r = self.r
        head = [f"Name: {r.choice(['foo', 'bar'])}", f"Version: {r.choice(['1.0', '2.' + str(r.randint(0, 99)), '%{?pm0}7'])}", f"Release: {r.choice([str(r.randint(1, 9)), '%{?rel}1', '1%{?dist}.%{?pm2}2'])}%{{?dist}}",
                "Summary: some %{?pm1}", "License: MIT"]
        pre, post = [], []
        if r.random() < 0.3:
            pre.append(f"%global rel {r.randint(1, 9)}%{{?dist}}.")
        for _ in range(r.randint(0, 5)):
            (pre if r.random() < 0.5 else post).extend(self.line())
        if r.random() < 0.4:
            post.append(f"URL: https://e.com/{self.word().replace(' ', '')}")
        for i in range(r.randint(0, 3)):
            post.append(f"Source{i}: %{{name}}-%{{?pm{i}}}.tar{self.n}")
        for i in range(r.randint(0, 2)):
            post.append(f"Patch{i}: p{i}-%{{version}}.patch")
        body = ["", "%description", "text %{?pm0}" + r.choice(["", "", "\x0c%prep", "\u2028%install"])]
        if r.random() < 0.3:
            body += ["%install"] + self.line()[:1]
        return "\n".join(pre + head + post + body) + "\n"


class Obj:
    def __init__(self, spec, path):
        self.spec, self.path, self.saved = spec, path, None


class History:
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng
        self.sg = SpecGen(ctx.rng)
        self.objs = []
        self.n = 0
        self.compared = 0
        self.last = None
        self.edits = 0
        self.ndirs = 0

    # -- oracle --------------------------------------------------------------------------------
    def ask(self, o, exprs=(), extra=(), want=()):
        s = o.spec
        return self.ctx.oracle.ask(str(s), list(map(list, s.macros)) + list(map(list, extra)), s.sourcedir, exprs=list(exprs), want=want)

    def rejected(self, o, fn, ans, what):
        from specfile.exceptions import RPMException

        before = str(o.spec)
        try:
            fn()
        except RPMException:
            check(str(o.spec) == before, "rejected parse changed the content")
            self.ctx.count("rejected_compared")
            return
        check(False, "RPM rejects the content but the operation succeeded", op=what, rpm=ans["stderr"], spec=str(o.spec), ops=self.ctx.trace)

    def touch(self, o):
        if self.last is not None and self.last is not o:
            self.ctx.count("switches")
        self.last = o

    # -- operations ----------------------------------------------------------------------------
    def new(self):
        from specfile import Specfile

        r = self.r
        if self.objs and r.random() < 0.25:
            text = str(r.choice(self.objs).spec)
            self.ctx.count("same_content_objects")
        elif r.random() < 0.15:
            text = generate(r, sections=False, changelog=0, prep=False, subpackages=0, lists=0, extra_tags=2).text()
        else:
            text = self.sg.text()
        self.n += 1
        macros = [self.override() for _ in range(r.choice([0, 0, 1, 2]))]
        sd = self.dir() if r.random() < 0.3 else None
        ans = self.ctx.oracle.ask(text, macros, sd or self.ctx.tmp / f"o{self.n}")
        if not ans["ok"]:
            return
        path = scratch_spec(self.ctx, text, f"s{self.n}.spec", sub=f"o{self.n}")
        self.ctx.log("new", self.n, macros, sd, repr(text))
        spec = Specfile(path, macros=macros, sourcedir=sd)
        self.objs.append(Obj(spec, path))
        self.ctx.count("config_macro_redefined", any(f"%global {c}" in text or f"%undefine {c}" in text for c in CONFIG))

    def dir(self):
        self.ndirs = (self.ndirs + 1) % 3
        d = self.ctx.tmp / f"src{self.ndirs}"
        d.mkdir(exist_ok=True)
        return d

    def override(self):
        r = self.r
        return (r.choice(POOL + ["ov1", "ov2", "dist", "num", "_smp_mflags", "optflags", "_sourcedir"]), r.choice([str(r.randint(0, 9)), "%{?pm3}z", None, ""]))

    def pick_exprs(self):
        return self.r.sample(PROBES, self.r.choice([1, 3, 8]))

    def expand(self, o, extra=None):
        exprs = self.pick_exprs()
        ans = self.ask(o, exprs, extra or ())
        self.ctx.log("expand", self.name(o), exprs, extra or "")
        kw = {} if extra is None else {"extra_macros": extra}
        if not ans["ok"]:
            return self.rejected(o, lambda: o.spec.expand(exprs[0], **kw), ans, "expand")
        from specfile.exceptions import RPMException

        for e, want in zip(exprs, ans["exprs"]):
            try:
                got = o.spec.expand(e, **kw)
            except RPMException:
                got = None
            check(got == want, "expansion differs from that of a fresh RPM", expression=e, got=got, rpm=want, macros=o.spec.macros, extra=extra,
                  spec=str(o.spec), ops=self.ctx.trace)
            self.ctx.count("expansions")
            self.ctx.count("lua_tables", e in ("%{sources}", "%{patches}") and bool(want))
        self.compared += 1

    def name(self, o):
        return next(i for i, x in enumerate(self.objs) if x is o)

    def extra(self, o):
        ex = [(self.r.choice(POOL + ["ex1", "ex2", "dist", "num"]), self.r.choice(["E1", "E2", None, "3", ""])) for _ in range(self.r.choice([1, 2]))]
        self.ctx.count("extra_removed", any(v is None for _, v in ex))
        self.expand(o, ex)
        self.ctx.count("extra_macros")

    def properties(self, o):
        props = self.r.sample(["name", "version", "release", "summary", "license", "url"], self.r.choice([1, 2, 4]))
        ans = self.ask(o)
        self.ctx.log("properties", self.name(o), props)
        if not ans["ok"]:
            return self.rejected(o, lambda: o.spec.expanded_name, ans, "property")
        raw = {p: o.spec.raw_release if p == "release" else getattr(o.spec, p) for p in props}
        props = [p for p in props if raw[p] is not None]
        values = self.ask(o, [raw[p] for p in props])["exprs"]
        for p, want in zip(props, values):
            if p == "release":
                got = safe(lambda: o.spec.expanded_raw_release)
            else:
                got = safe(lambda: getattr(o.spec, "expanded_" + p))
            check(got == want, "expanded property differs from that of a fresh RPM", property=p, got=got, rpm=want, spec=str(o.spec),
                  macros=o.spec.macros, ops=self.ctx.trace)
            self.ctx.count("properties")
        if "release" in props:
            base = o.spec.release
            want = self.ask(o, [base], [("dist", "")])
            if want["ok"]:
                got = safe(lambda: o.spec.expanded_release)
                check(got == want["exprs"][0], "expanded release differs from that of a fresh RPM without the dist suffix", release=base, got=got,
                      rpm=want["exprs"][0], spec=str(o.spec), macros=o.spec.macros, ops=self.ctx.trace)
                self.ctx.count("release_without_dist")
        self.compared += 1

    def parsed(self, o):
        import rpm

        ans = self.ask(o, want=("header", "parsed"))
        self.ctx.log("rpm_spec", self.name(o))
        if not ans["ok"]:
            return self.rejected(o, lambda: o.spec.rpm_spec, ans, "rpm_spec")
        s = o.spec.rpm_spec
        got = {t: s.sourceHeader[getattr(rpm, "RPMTAG_" + t)] for t in ("NAME", "VERSION", "RELEASE", "SUMMARY", "URL")}
        got_sources = sorted([n, loc, fl] for loc, n, fl in s.sources)
        text = s.parsed
        del s
        want = {t: ans["header"][t] for t in got}
        check(got == want and got_sources == ans["sources"] and text == ans["parsed"], "parsed spec differs from that of a fresh RPM",
              got=got, rpm=want, sources=got_sources, rpm_sources=ans["sources"], spec=str(o.spec), ops=self.ctx.trace)
        self.ctx.count("parsed_spec")
        secs = o.spec.parsed_sections
        raw = "\n".join(secs.get_raw_data())
        check(raw == text[:-1] if text.endswith("\n") else raw == text, "parsed sections don't consist of the parsed content", got=raw, rpm=text)
        heads = [ln for ln in text.split("\n") if ln.startswith("%")]
        check(not all(re.fullmatch(r"%(description|install|prep)\s*", h) for h in heads) or [s.name for s in secs] == ["package"] + [h[1:].strip() for h in heads], "names of parsed sections", got=[s.name for s in secs], rpm=text)
        self.ctx.count("parsed_sections")
        self.compared += 1

    def active(self, o):
        names = self.r.sample(POOL + ["ov1", "ex1", "dist", "num", "lm", "cnd"], 5)
        ans = self.ask(o, [f"%{{?{n}}}" for n in names] + [f"%{{?{n}:1}}" for n in names])
        self.ctx.log("active macros", self.name(o), names)
        if not ans["ok"]:
            return self.rejected(o, lambda: o.spec.get_active_macros(), ans, "active macros")
        ms = {}
        for m in o.spec.get_active_macros():
            ms.setdefault(m.name, []).append(m)
        for n, v, d in zip(names, ans["exprs"], ans["exprs"][len(names):]):
            check(bool(d) == (n in ms), "macro is (not) in the list of active macros", name=n, defined=bool(d), listed=n in ms, ops=self.ctx.trace)
            if n in ms and v is not None and "%" not in ms[n][0].body:
                check(ms[n][0].body.strip() == v.strip(), "body of an active macro", name=n, got=ms[n][0].body, rpm=v, ops=self.ctx.trace)
            self.ctx.count("active_macros")
        self.compared += 1

    def entities(self, o):
        ans = self.ask(o, want=("header",))
        self.ctx.log("entities", self.name(o))
        if not ans["ok"]:
            return
        with o.spec.tags() as tags:
            vals = [(t.name, t.value) for t in tags if t.valid and "\n" not in t.value]
            got = [safe(lambda: t.expanded_value) for t in tags if t.valid and "\n" not in t.value]
        want = self.ask(o, [v for _, v in vals])["exprs"]
        check(got == want, "expanded values of tags", got=got, rpm=want, tags=vals, spec=str(o.spec), ops=self.ctx.trace)
        self.ctx.count("tag_values", len(got))
        with o.spec.sources() as v:
            locs = [s.location for s in v]
            got = [safe(lambda: s.expanded_location) for s in v]
        want = self.ask(o, locs)["exprs"]
        check(got == want, "expanded locations", got=got, rpm=want, spec=str(o.spec), ops=self.ctx.trace)
        self.ctx.count("locations", len(got))
        self.compared += 1

    def edit(self, o):
        from specfile.exceptions import RPMException, SpecfileException

        r, s = self.r, o.spec
        before = str(s)
        self.edits += 1
        k = r.random()
        ok = self.ask(o)["ok"]
        try:
            if k < 0.2:
                self.ctx.log("edit version", self.name(o))
                s.version = r.choice(["3", "4.5", "%{?pm0}9", "%{pm5}"])
                self.ctx.count("edit_version")
            elif k < 0.45:
                with s.macro_definitions() as mds:
                    if len(mds) and r.random() < 0.7:
                        i = r.randrange(len(mds))
                        q = r.random()
                        self.ctx.log("edit macro", self.name(o), i, q)
                        if q < 0.4:
                            mds[i].body = self.sg.word()
                            self.ctx.count("edit_macro")
                        elif q < 0.7 and "\n" not in mds[i].body:
                            mds[i].commented_out = not mds[i].commented_out
                            self.ctx.count("edit_comment_out")
                        else:
                            del mds[i]
                    else:
                        from specfile.macro_definitions import MacroDefinition, CommentOutStyle

                        self.ctx.log("insert macro", self.name(o))
                        mds.insert(0, MacroDefinition(r.choice(POOL), self.sg.word(), True, False, CommentOutStyle.DNL, ("", " ", " ", "")))
                        self.ctx.count("edit_macro")
            elif k < 0.65:
                from specfile.tags import Comments, Tag

                self.ctx.log("edit tags", self.name(o))
                with s.tags() as tags:
                    if r.random() < 0.5:
                        tags.append(Tag("Requires", self.sg.word().replace(" ", ""), ": ", Comments()))
                    else:
                        tags.summary.value = "changed " + self.sg.word() + "%{?" + r.choice(POOL) + "}"
                self.ctx.count("edit_tag")
            elif k < 0.8:
                self.ctx.log("edit sources", self.name(o))
                with s.sources() as v:
                    if len(v) and r.random() < 0.4:
                        del v[r.randrange(len(v))]
                    else:
                        v.append(f"new{self.sg.word().replace(' ', '')}-%{{?{r.choice(POOL)}}}")
                self.ctx.count("edit_source")
            else:
                self.ctx.log("edit sections", self.name(o))
                with s.sections() as secs:
                    secs[0].insert(r.choice([0, len(secs[0])]), r.choice([f"%global {r.choice(POOL)} {self.sg.word()}", f"%undefine {r.choice(POOL)}",
                                                                           f"%global num {r.randint(0, 9)}", f"%global dist .{self.sg.n}"]))
                self.ctx.count("edit_section")
        except RPMException:
            check(not ok, "editing content accepted by RPM failed", spec=before, ops=self.ctx.trace)
        except SpecfileException:
            raise
        except AttributeError:
            check(not ok, "editing content accepted by RPM failed", spec=before, ops=self.ctx.trace)

    def break_(self, o):
        r, s = self.r, o.spec
        if o.saved is None:
            o.saved = str(s)
            bad = r.choice(["%if 1", "Foo bar baz", "%if garbage (", "%include /nonexistent/file", "%{error:boom}", "Release: 3", "%endif",
                            "%{pm0", "%global"])
            self.ctx.log("break", self.name(o), bad)
            with s.lines() as lines:
                lines.insert(r.choice([0, len(lines) // 2]), bad)
            self.ctx.count("broken")
        else:
            self.ctx.log("repair", self.name(o))
            saved = o.saved
            o.saved = None
            with s.lines() as lines:
                lines[:] = split(saved)[0]
            self.ctx.count("repaired")
        self.edits += 1

    def override_change(self, o):
        r, m = self.r, o.spec.macros
        k = r.random()
        if m and k < 0.4:
            m.pop(r.randrange(len(m)))
            self.ctx.count("override_removed")
        elif m and k < 0.5:
            m[0] = (m[0][0], str(r.randint(10, 99)))
        else:
            m.append(self.override())
        self.ctx.log("macros", self.name(o), m)
        self.ctx.count("overrides")

    def sourcedir(self, o):
        o.spec.sourcedir = self.dir()
        self.ctx.log("sourcedir", self.name(o), o.spec.sourcedir)
        self.ctx.count("sourcedir")

    def reload(self, o):
        r = self.r
        if r.random() < 0.5:
            text = self.sg.text()
            if self.ctx.oracle.ask(text, o.spec.macros, o.spec.sourcedir)["ok"]:
                o.path.write_text(text)
                self.ctx.count("reloaded_changed")
        self.ctx.log("reload", self.name(o))
        o.saved = None
        from specfile.exceptions import RPMException

        try:
            o.spec.reload()
        except RPMException:
            pass
        self.ctx.count("reloaded")

    def copy(self, o):
        if len(self.objs) > 5:
            return
        self.ctx.log("copy", self.name(o))
        c = copy.deepcopy(o.spec)
        n = Obj(c, o.path)
        n.saved = o.saved
        self.objs.append(n)
        self.ctx.count("copied")

    def dispose(self, o):
        if len(self.objs) < 2:
            return
        self.ctx.log("dispose", self.name(o))
        self.objs = [x for x in self.objs if x is not o]
        if self.last is o:
            self.last = None
        o.spec = None
        if self.r.random() < 0.5:
            gc.collect()
        self.ctx.count("disposed")

    def read_views(self, o):
        self.ctx.log("views", self.name(o))
        if not self.ask(o)["ok"]:
            return
        before = str(o.spec)
        for v in self.r.sample(["tags", "sources", "patches", "macro_definitions", "sections", "changelog", "prep"], 2):
            with getattr(o.spec, v)():
                pass
        check(str(o.spec) == before, "reading views changed the content", diff=line_diff(split(before)[0], split(str(o.spec))[0]))
        self.ctx.count("views_read")

    def step(self):
        r = self.r
        if not self.objs or (len(self.objs) < 4 and r.random() < 0.12):
            return self.new()
        o = r.choice(self.objs)
        op = r.choices([self.expand, self.extra, self.properties, self.parsed, self.active, self.entities, self.edit, self.break_,
                        self.override_change, self.sourcedir, self.reload, self.copy, self.dispose, self.read_views],
                       [8, 3, 3, 2, 1, 2, 6, 1.2, 2, 0.7, 1, 1.2, 0.8, 3])[0]
        op(o)
        if op not in (self.dispose, self.edit):
            self.touch(o)
        if o.saved is not None and r.random() < 0.5 and op != self.break_ and any(x is o for x in self.objs):
            self.break_(o)


def run_case(ctx):
    h = History(ctx)
    h.new()
    for _ in range(ctx.rng.choice([8, 15, 25, 40])):
        h.step()
    for o in list(h.objs):
        if o.saved is not None:
            h.break_(o)
        h.expand(o)
    if h.edits and h.compared >= 5 and h.n + sum("copy" in t for t in ctx.trace) > 1:
        ctx.nontrivial(ctx.trace)


MIN = "Name: a\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n"


def _spec(ctx, body, name="t.spec", **kw):
    from specfile import Specfile

    return Specfile(scratch_spec(ctx, MIN + body + "%description\n", name), **kw)


def _eq(got, want, what):
    check(got == want, what, got=got, want=want)


def conditions_reexecuted(ctx):
    s = _spec(ctx, "%global x 1\n%undefine x\n%global x 2\n")
    _eq(s.expand("%{x}"), "2", "expansion")
    s.tags().content
    _eq(s.expand("%{x}"), "2", "expansion after reading tags")
    s = _spec(ctx, "%bcond_without x\n%global with_x 5\n")
    s.tags().content
    _eq(s.expand("%{with_x}"), "5", "expansion after reading tags")


def copy_then_delete(ctx):
    s = _spec(ctx, "Source0: a\nSource1: b\n")
    want = s.expand("%{sources}")
    c = copy.deepcopy(s)
    c.expand("%{sources}")
    del s
    gc.collect()
    _eq(c.expand("%{sources}"), want, "expansion after the original was disposed")
    t = _spec(ctx, "Source0: c\n", "u.spec")
    t.expand("%{sources}")
    del c
    gc.collect()
    check(t.expand("%{sources}").endswith("/c' "), "expansion after another object was disposed", got=t.expand("%{sources}"))


def extra_then_plain(ctx):
    s = _spec(ctx, "%global y 1%{?x}\n")
    _eq(s.expand("%{y}", extra_macros=[("x", "5")]), "15", "expansion with an extra macro")
    _eq(s.expand("%{y}%{?x}"), "1", "expansion afterwards")


def failed_then_other(ctx):
    from specfile.exceptions import RPMException

    s, t = _spec(ctx, "%global z 1\n"), _spec(ctx, "", "u.spec")
    with s.lines() as lines:
        lines.append("%if 1")
    try:
        s.expand("%{z}")
        check(False, "broken content accepted")
    except RPMException:
        pass
    _eq(t.expand("%{?z}"), "", "expansion by another object")
    with s.lines() as lines:
        lines.pop()
    _eq(s.expand("%{z}"), "1", "expansion after the repair")


def fixed_cases():
    return [("conditions-reexecuted", conditions_reexecuted), ("copy-then-delete", copy_then_delete), ("extra-then-plain", extra_then_plain),
            ("failed-then-other", failed_then_other)]


def held(ctx):
    from specfile.exceptions import RPMException

    gc.collect()
    s = _spec(ctx, "Source0: a\n")
    r = s.rpm_spec
    s.version = "2"
    want = s.expand("%{sources}")
    del r
    try:
        return s.expand("%{sources}") != want
    except RPMException:
        return True


def findings():
    return [("held-rpm-spec", held)]
