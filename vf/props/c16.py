"""C16 - failed operations are reported as library errors and leave objects usable."""
import copy
import gc
import re

from vf.core import Skip, check
from vf.gen import generate
from vf.util import line_diff, scratch_spec, split

ID = "C16"
LEVEL = "exploration"
CASES = {"quick": 420, "thorough": 9000}
RULE = """Histories of 8-30 operations over 1-4 spec objects (generated specs, with and without autosave): breaking the
content in some thirty ways that RPM rejects, operations on the broken content, repairs, opening broken files, failing
expansions, and some fifty kinds of requests that cannot be fulfilled (missing or invalid tags, sections, macros, prep
macros, positions and indices, wrong types of option values, malformed option, EVR and value strings, duplicate sources,
too low patch numbers, invalid pre-release patterns), alone, inside open views or after successful edits in the same view.
Monitors: type of the exception and RPM's own message (compared with a fresh RPM process), content and file before and
after, and after every failure an edit through a view followed by an expansion compared with a fresh RPM process, on the
same and on another object. Non-trivial: at least 3 failures; distinct by history."""
ASSUMPTIONS = ["messages are compared up to the name of the temporary file that is parsed", "requests are made with arguments of the documented types"]
REQUIRED = ["failed_parse", "failed_expand", "messages_compared", "invalid_requests", "repaired", "usable_after_failure", "others_usable", "open_broken",
            "inside_view", "after_edit", "autosave", "broken_views_readable", "full_parse_only", "copies_of_broken", "saved_broken"] + [
    "kind_" + k for k in ("tag", "section", "macro", "prep", "option", "duplicate", "number", "index", "property", "evr", "string", "pattern", "name", "position", "tokenize")]

BAD = ["%if 1", "%if", "%else", "%endif", "%elif 1", "%if 1 +", "%if (1", "Foo: bar", "just text", "Epoch: x", "Epoch: -1", "Release: 9", "Name: other", "%include /nonexistent/f",
       "%{load:/nonexistent/m}", "%{error:boom}", "%{error:}", "%{error: multi\nerror: second}", "%{lua:error('luaerr')}", "%{lua:syntax error here}", "%global", "%define 1a x", "%{name",
       "%(unterminated", "%[1 +]", "%{expr:1 +}", "%package", "%package -n", "%description nosuch", "%files nosuch", "%ifarch", "%recur", "Requires: foo >", "Requires: ,", "Version: 1-2",
       "BuildArch:", "%{expand:%if 1}", "%{error:żółw}", "%{warn:w}%{error:after warning}"]
FULL = ["%setup -q -a 77", "%patch 88", "%setup -q -Z", "%patch -Z 0"]


def norm(text):
    return re.sub(r"/\S*tmp\w+", "TMP", text)


def rpm_message(stderr):
    """First error reported by RPM."""
    for ln in stderr.split("\n"):
        if ln.rstrip().startswith("error:"):
            return norm(ln.rstrip()[len("error: "):])
    return None


class Obj:
    def __init__(self, spec, path, autosave):
        self.spec, self.path, self.autosave = spec, path, autosave
        self.good = None  # lines to restore


class History:
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng
        self.objs = []
        self.n = 0
        self.failures = 0

    def ask(self, o, exprs=(), strict=False):
        return self.ctx.oracle.ask(str(o.spec), [list(m) for m in o.spec.macros], o.spec.sourcedir, exprs=list(exprs), strict=strict)

    def new(self):
        from specfile import Specfile

        r = self.r
        doc = generate(r, sections=r.random() < 0.6, changelog=r.choice([0, 2]), prep=r.random() < 0.7, subpackages=r.choice([0, 1]), lists=r.choice([0, 0, 1]), extra_tags=2)
        text = doc.text()
        ans = self.ctx.oracle.ask(text, [list(m) for m in doc.macros], self.ctx.tmp)
        if not ans["ok"]:
            return
        self.n += 1
        autosave = r.random() < 0.3
        path = scratch_spec(self.ctx, text, f"s{self.n}.spec", sub=f"o{self.n}")
        spec = Specfile(path, macros=list(doc.macros), autosave=autosave)
        self.objs.append(Obj(spec, path, autosave))
        self.ctx.log("new", self.n, "autosave" if autosave else "", repr(text) if len(text) < 1200 else repr(text[:1200]))
        self.ctx.count("autosave", autosave)

    # -- judging -------------------------------------------------------------------------------
    def fails(self, o, fn, types, what, message=None, same=True):
        """Runs an operation that has to fail; the content and file must not change."""
        spec = o.spec if o else None
        before = str(spec) if o else None
        disk = o.path.read_bytes() if o else None
        try:
            res = fn()
        except types as e:
            exc = e
        except Exception as e:  # wrong error
            check(False, "request failed with an unexpected error", request=what, error=repr(e), expected=[t.__name__ for t in types], history=self.ctx.trace)
        else:
            check(False, "request that cannot be fulfilled succeeded", request=what, result=repr(res)[:200], history=self.ctx.trace)
        text = str(exc)
        if message is not None:
            check(norm(text) == message, "the error doesn't carry RPM's message", request=what, got=norm(text), rpm=message, history=self.ctx.trace)
            self.ctx.count("messages_compared")
        exc.__traceback__ = None
        if o and same:
            check(str(spec) == before, "failed request changed the content", request=what, diff=line_diff(split(before)[0], split(str(spec))[0]), history=self.ctx.trace)
            check(o.path.read_bytes() == disk, "failed request changed the file", request=what, history=self.ctx.trace)
        self.failures += 1

    def usable(self, o):
        """Edits through a view and compares expansions with RPM's."""
        from specfile.exceptions import RPMException

        if o.good is not None:
            return
        r = self.r
        v = f"usable{r.randint(0, 9999)}"
        before = str(o.spec)
        with o.spec.tags() as tags:
            old = tags.summary.value
            tags.summary.value = v
        want = before.replace(old, v, 1) if before.count(old) == 1 else None
        if want is not None:
            check(str(o.spec) == want, "edit after a failure has a different effect", diff=line_diff(split(want)[0], split(str(o.spec))[0]), history=self.ctx.trace)
        check(o.spec.summary == v, "edit after a failure was lost", history=self.ctx.trace)
        exprs = ["%{name}-%{version}-%{release}", "%{sources}", "%{summary}"]
        ans = self.ask(o, exprs)
        check(ans["ok"], "content is rejected by RPM after the failure was dealt with", rpm=ans["stderr"], history=self.ctx.trace)
        got = []
        for e, a in zip(exprs, ans["exprs"]):
            if a is None:
                # a macro that can't be expanded on its own, reported in the usual way
                try:
                    o.spec.expand(e)
                except RPMException:
                    got.append(None)
                else:
                    got.append("")
            else:
                got.append(o.spec.expand(e))
        check(got == ans["exprs"], "expansions after a failure differ from those of a fresh RPM", got=got, rpm=ans["exprs"], history=self.ctx.trace)
        if o.autosave:
            check(o.path.read_bytes() == str(o.spec).encode("utf8", "surrogateescape"), "autosave doesn't work after a failure", history=self.ctx.trace)
        self.ctx.count("usable_after_failure")

    def after(self, o):
        if self.r.random() < 0.5:
            self.usable(o)
        others = [x for x in self.objs if x is not o and x.good is None]
        if others and self.r.random() < 0.5:
            self.usable(self.r.choice(others))
            self.ctx.count("others_usable")

    # -- broken content --------------------------------------------------------------------------
    def break_(self, o):
        from specfile.exceptions import RPMException

        r, s = self.r, o.spec
        if o.good is not None:
            return self.repair(o)
        good = list(split(str(s))[0])
        full = r.random() < 0.15
        with s.lines() as lines:
            if full and any(ln.strip() == "%prep" for ln in lines):
                bad = r.choice(FULL)
                lines.insert([ln.strip() for ln in lines].index("%prep") + 1, bad)
            else:
                bad = r.choice(BAD)
                lines[:] = "\n".join(lines[:(k := r.choice([0, 1, len(lines) // 2, len(lines)]))] + [bad] + lines[k:]).split("\n")
        a1, a2 = self.ask(o), self.ask(o, strict=True)
        self.ctx.log("break", self.objs.index(o), repr(bad))
        if a1["ok"] and (a2["ok"] or full is False):
            # harmless in this place
            with s.lines() as lines:
                lines[:] = good
            return
        o.good = good
        self.ctx.count("full_parse_only", a1["ok"])
        # without the sources a strict parse of RPM can fail for other reasons too
        msg = rpm_message(a1["stderr"]) if not a1["ok"] else None
        ops = [("expand", lambda: s.expand("%{name}")), ("rpm_spec", lambda: s.rpm_spec), ("active macros", s.get_active_macros), ("expand with extra macros", lambda: s.expand("x", extra_macros=[("a", "1")])),
               ("parsed sections", lambda: s.parsed_sections), ("tainted", lambda: s.tainted)]
        for what, fn in r.sample(ops, r.choice([1, 2, 3])):
            self.fails(o, fn, (RPMException,), what + " of broken content", message=msg)
            self.ctx.count("failed_parse")
        if r.random() < 0.5:
            before = str(s)
            with s.sections() as secs, s.changelog():
                check(len(secs) > 0, "sections of broken content")
            check(str(s) == before, "reading sections changed broken content", diff=line_diff(split(before)[0], split(str(s))[0]), history=self.ctx.trace)
            self.ctx.count("broken_views_readable")
        if r.random() < 0.3 and not o.autosave:
            c = copy.deepcopy(s)
            self.fails(o, lambda: c.expand("%{name}"), (RPMException,), "expand of a copy of broken content", message=msg)
            self.ctx.count("copies_of_broken")
        if r.random() < 0.3:
            s.save()
            check(o.path.read_bytes() == str(s).encode("utf8", "surrogateescape"), "saving broken content")
            from specfile import Specfile

            macros, sd = list(s.macros), s.sourcedir
            self.fails(o, lambda: Specfile(o.path, macros=macros, sourcedir=sd), (RPMException,), "opening a broken file", message=msg)
            self.ctx.count("open_broken")
            self.ctx.count("saved_broken")
        self.after(o)
        if r.random() < 0.7:
            self.repair(o)

    def repair(self, o):
        self.ctx.log("repair", self.objs.index(o))
        good, o.good = o.good, None
        with o.spec.lines() as lines:
            lines[:] = good
        self.ctx.count("repaired")
        self.usable(o)

    def bad_expand(self, o):
        from specfile.exceptions import RPMException

        r = self.r
        if o.good is not None:
            return
        e, msg = r.choice([("%{error:boom}", "boom"), ("%{error:}", ""), ("%{name", None), ("%(x", None), ("%{lua:error('q')}", None), ("%[1 +]", None), ("%{expr:(}", None), ("%{S:x y", None), ("%{load:/nonexistent}", None)])
        ans = self.ask(o, [e])
        self.ctx.log("expand", self.objs.index(o), e)
        if ans["exprs"][0] is not None:
            return
        self.fails(o, lambda: o.spec.expand(e), (RPMException,), f"expand {e}", message=msg)
        self.ctx.count("failed_expand")
        self.after(o)

    # -- requests that cannot be fulfilled ---------------------------------------------------------
    def requests(self, o):
        """(kind, description, callable, exception types); each callable runs with all needed views open."""
        from specfile.exceptions import DuplicateSourceException, OptionsException, SourceNumberException, SpecfileException, UnterminatedMacroException
        from specfile.options import Options
        from specfile.sections import Section
        from specfile.tags import Comments, Tag
        from specfile.utils import EVR, NEVR, NEVRA
        from specfile.value_parser import ValueParser

        r, s = self.r, o.spec
        out = []

        def add(kind, what, fn, *types):
            out.append((kind, what, fn, types))

        with s.tags() as tags:
            present = {t.normalized_name.lower() for t in tags}
            ntags = len(tags)
            first = tags[0].name if ntags else None
        absent = [t for t in ("vcs", "bugurl", "epoch", "group", "modularitylabel", "translationurl", "icon") if t not in present]
        if absent:
            t = r.choice(absent)

            def view(fn, *a):
                def call():
                    with s.tags(*a) as tags:
                        return fn(tags)
                return call

            add("tag", f"get tag {t}", view(lambda tags: getattr(tags, t)), AttributeError)
            add("tag", f"delete tag {t}", view(lambda tags: delattr(tags, t)), AttributeError)
            add("tag", f"find tag {t}", view(lambda tags: tags.find(t)), ValueError)
            add("tag", f"get() tag {t}", view(lambda tags: tags.get(t)), ValueError)
            add("tag", f"update tag {t}", lambda: s.update_tag(t, "1"), AttributeError)
            if first:
                add("position", "find tag at a wrong position", view(lambda tags: tags.find(first, 10 ** 6)), ValueError)
                add("position", "get tag at a wrong position", view(lambda tags: tags.get(first, 10 ** 6)), ValueError)
            add("index", "tag index", view(lambda tags: tags[10 ** 6]), IndexError)
            add("index", "delete tag index", view(lambda tags: tags.__delitem__(10 ** 6)), IndexError)
            if "epoch" in absent:
                add("property", "set epoch", lambda: setattr(s, "epoch", "1"), AttributeError)
        if "url" not in present:
            add("property", "set url", lambda: setattr(s, "url", "1"), AttributeError)
        with s.sections() as secs:
            have = {x.normalized_id for x in secs}
        missing = [x for x in ("check", "clean", "pretrans", "verifyscript", "install", "build", "generate_buildrequires", "package nosuch", "files nosuch") if x not in have]
        if missing:
            m = r.choice(missing)

            def sview(fn):
                def call():
                    with s.sections() as secs:
                        return fn(secs)
                return call

            if " " not in m:
                add("section", f"get section {m}", sview(lambda x: getattr(x, m)), AttributeError)
                add("section", f"delete section {m}", sview(lambda x: delattr(x, m)), AttributeError)
            add("section", f"find section {m}", sview(lambda x: x.find(m)), ValueError)
            add("section", f"get() section {m}", sview(lambda x: x.get(m)), ValueError)
            add("index", "section index", sview(lambda x: x[10 ** 6]), IndexError)
            add("section", f"tags of section {m}", lambda: s.tags(m).__enter__(), AttributeError)

        def mview(fn):
            def call():
                with s.macro_definitions() as mds:
                    return fn(mds)
            return call

        add("macro", "get macro", mview(lambda x: x.no_such_macro), AttributeError)
        add("macro", "delete macro", mview(lambda x: delattr(x, "no_such_macro")), AttributeError)
        add("macro", "find macro", mview(lambda x: x.find("no_such_macro")), ValueError)
        add("macro", "get() macro", mview(lambda x: x.get("no_such_macro")), ValueError)
        add("index", "macro index", mview(lambda x: x[10 ** 6]), IndexError)
        with s.macro_definitions() as mds:
            mname = mds[0].name if len(mds) else None
        if mname:
            add("position", "find macro at a wrong position", mview(lambda x: x.find(mname, 10 ** 6)), ValueError)
        if "prep" in have:
            def pview(fn):
                def call():
                    with s.prep() as p:
                        return fn(p)
                return call

            add("prep", "get prep macro", pview(lambda p: p.patch987), AttributeError)
            add("prep", "delete prep macro", pview(lambda p: delattr(p, "patch987")), AttributeError)
            add("prep", "find prep macro", pview(lambda p: p.macros.find("%patch987")), ValueError)
            add("index", "prep macro index", pview(lambda p: p.macros[10 ** 6]), IndexError)
            with s.prep() as p:
                names = [m.name for m in p.macros]
            for n, arg, flag in (("%setup", "n", "q"), ("%autosetup", "n", "N"), ("%autopatch", "p", "v")):
                if n in names:
                    i = names.index(n)
                    add("option", f"{n} -{arg} = True", pview(lambda p, i=i, a=arg: setattr(p.macros[i].options, a, True)), OptionsException)
                    add("option", f"{n} -{arg} = False", pview(lambda p, i=i, a=arg: setattr(p.macros[i].options, a, False)), OptionsException)
                    add("option", f"{n} -{flag} = value", pview(lambda p, i=i, f=flag: setattr(p.macros[i].options, f, "x")), OptionsException)
                    add("option", f"{n} -{flag} = 1", pview(lambda p, i=i, f=flag: p.macros[i].options.__setitem__(f, 3)), OptionsException)
                    add("option", f"{n} unknown option", pview(lambda p, i=i: p.macros[i].options.Z), AttributeError)
                    add("option", f"{n} unknown option item", pview(lambda p, i=i: p.macros[i].options["Z"]), KeyError)
        for v in ("sources", "patches"):
            with getattr(s, v)() as lst:
                locs = [(x.location, x.number) for x in lst]

            def dview(fn, v=v, **kw):
                def call():
                    with getattr(s, v)(**kw) as lst:
                        return fn(lst)
                return call

            if locs:
                loc, num = r.choice(locs)
                add("duplicate", f"append duplicate to {v}", dview(lambda x, loc=loc: x.append(loc)), DuplicateSourceException)
                add("duplicate", f"insert duplicate to {v}", dview(lambda x, loc=loc: x.insert(r.choice([0, -1, 1]), loc)), DuplicateSourceException)
                add("duplicate", f"insert numbered duplicate to {v}", dview(lambda x, loc=loc: x.insert_numbered(r.choice([0, 5, 77]), loc)), DuplicateSourceException)
                add("duplicate", f"append duplicate to {v} (implicit)", dview(lambda x, loc=loc: x.append(loc), default_to_implicit_numbering=True), DuplicateSourceException)
                add("duplicate", f"extend {v}", dview(lambda x, loc=loc: x.extend([loc])), DuplicateSourceException)
                if v == "patches":
                    add("duplicate", "add duplicate patch", lambda loc=loc: s.add_patch(loc), DuplicateSourceException)
                    hi = max(n for _, n in locs)
                    add("number", "too low patch number", lambda hi=hi: s.add_patch("brand-new.patch", number=r.randint(0, hi)), SourceNumberException)
                    add("number", "too low patch number with comment", lambda hi=hi: s.add_patch("brand-new.patch", hi, comment="a\nb", initial_number=99), SourceNumberException)
            add("index", f"{v} index", dview(lambda x: x[10 ** 6]), IndexError)
            add("index", f"delete {v} index", dview(lambda x: x.__delitem__(10 ** 6)), IndexError)
        if "changelog" in have:
            def cview(fn):
                def call():
                    with s.changelog() as c:
                        return fn(c)
                return call
            add("index", "changelog index", cview(lambda c: c[10 ** 6]), IndexError)
            add("index", "delete changelog index", cview(lambda c: c.__delitem__(10 ** 6)), IndexError)
        add("pattern", "pre-release pattern without a group", lambda: s.update_version("1.0rc1", prerelease_suffix_pattern=r"rc\d+"), SpecfileException)
        add("name", "invalid tag name", lambda: Tag(r.choice(["Foo", "", "Sourcex", "Name ", "Source 1", "%{x}", "Requires(foo"]), "x", ": ", Comments()), ValueError)
        add("name", "invalid section name", lambda: Section(r.choice(["foo", "", "%prep", "prep x", "packages"])), ValueError)
        add("evr", "malformed EVR", lambda: EVR.from_string(r.choice(["", "1-2-3", "-1", "1-", "a:1-", "1--2", "-", "1:2-3-4"])), SpecfileException)
        add("evr", "malformed NEVR", lambda: NEVR.from_string(r.choice(["", "foo", "foo-1-", "-1", "foo-"])), SpecfileException)
        add("evr", "malformed NEVRA", lambda: NEVRA.from_string(r.choice(["", "foo", "foo-1-1", "foo-1-1.nosucharch", "foo.x86_64", "foo-1-1.", ".x86_64", "foo-1-1.X86_64"])), SpecfileException)
        add("evr", "unknown architecture", lambda: NEVRA(name="a", version="1", release="1", arch=r.choice(["", "foo", "x86_64 ", "X86_64"])), SpecfileException)
        add("string", "unterminated macro", lambda: ValueParser.parse(r.choice(["%{", "a%{b", "%(", "%[", "%{?x:%{y}", "%{a%{b}"])), UnterminatedMacroException)
        add("tokenize", "malformed option string", lambda: Options.tokenize(r.choice(["'", "a 'b", '"', '"a\\', "\\", "a\\", "'a\"", "\"a' b"])), OptionsException)
        return out

    def invalid(self, o):
        r, s = self.r, o.spec
        if o.good is not None:
            return
        reqs = self.requests(o)
        for _ in range(r.choice([1, 2, 4, 8])):
            kind, what, fn, types = r.choice(reqs)
            mode = r.choice(["plain", "plain", "inside"])
            self.ctx.log("request", self.objs.index(o), mode, what)
            if mode == "plain" or kind in ("macro", "position") or what.startswith(("update", "set ", "pre-release")) or kind == "pattern":
                self.fails(o, fn, types, what)
            else:
                # inside of an open view, after an edit
                before = str(s)
                mark = f"# inside {r.randint(0, 9999)}"
                with s.sections() as secs:
                    secs[0].insert(0, mark)
                    exc = None
                    try:
                        fn()
                    except types as e:
                        exc = e
                    check(exc is not None, "request that cannot be fulfilled succeeded", request=what, history=self.ctx.trace)
                    exc.__traceback__ = None
                    del exc
                    check(secs[0][0] == mark, "open view changed by a failed request", request=what, history=self.ctx.trace)
                check(str(s) == mark + "\n" + before, "failed request inside of an open view changed the content", request=what,
                      diff=line_diff(split(mark + "\n" + before)[0], split(str(s))[0]), history=self.ctx.trace)
                self.failures += 1
                self.ctx.count("inside_view")
            self.ctx.count("kind_" + kind)
            self.ctx.count("invalid_requests")
        self.after(o)

    def partial(self, o):
        """A failing request after successful ones in the same view: these are kept."""
        from specfile.exceptions import DuplicateSourceException

        r, s = self.r, o.spec
        if o.good is not None:
            return
        self.ctx.log("partial", self.objs.index(o))
        a = f"part{r.randint(0, 99999)}.tar.gz"

        class Own(Exception):
            pass

        k = r.random()
        if k < 0.5:
            try:
                with s.sources() as v:
                    v.append(a)
                    v.append(a)
                check(False, "duplicate accepted")
            except DuplicateSourceException as e:
                e.__traceback__ = None
        else:
            try:
                with s.sections(), s.tags(), s.sources() as v:
                    v.append(a)
                    raise Own
            except Own as e:
                e.__traceback__ = None
        with s.sources() as v:
            n = [x.location for x in v].count(a)
        check(n == 1, "edit made in a view left by an exception is not in the content exactly once", count=n, history=self.ctx.trace)
        self.failures += 1
        self.ctx.count("after_edit")
        self.usable(o)

    def step(self):
        r = self.r
        if not self.objs or (len(self.objs) < 4 and r.random() < 0.1):
            return self.new()
        o = r.choice(self.objs)
        r.choices([self.break_, self.invalid, self.bad_expand, self.partial], [3, 4, 1, 1])[0](o)


def run_case(ctx):
    h = History(ctx)
    h.new()
    for _ in range(ctx.rng.choice([6, 10, 16])):
        h.step()
    for o in h.objs:
        if o.good is not None:
            h.repair(o)
        h.usable(o)
    if h.failures >= 3:
        ctx.nontrivial(ctx.trace)


MIN = "Name: a\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n"


def empty_message(ctx):
    from specfile import Specfile
    from specfile.exceptions import RPMException

    try:
        Specfile(scratch_spec(ctx, MIN + "%{error:}\n%description\n"))
    except RPMException as e:
        check(str(e) == "", "message", got=str(e))
    else:
        check(False, "broken content accepted")


def bare_package(ctx):
    from specfile import Specfile

    s = Specfile(scratch_spec(ctx, MIN + "%description\n"))
    with s.lines() as lines:
        lines.insert(2, "%package")
        lines.append("%Package ")
    before = str(s)
    with s.sections():
        pass
    check(str(s) == before, "reading sections changed broken content", got=str(s))


def fixed_cases():
    return [("bare-package", bare_package), ("empty-message", empty_message)]
