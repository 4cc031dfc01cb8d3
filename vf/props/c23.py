"""C23 - forced parsing succeeds exactly by standing in for missing files."""
import os
import shutil

from vf.core import Skip, check
from vf.util import scratch_spec, snapshot_tree

ID = "C23"
LEVEL = "exploration"
CASES = {"quick": 2000, "thorough": 15000}
RULE = """Specs with 1-4 files that are included, loaded or read by shell expansions of tag values, referenced by source macros or
by path in the source directory, from plain, URL and fragment locations, in the preamble (before and after other sources), in
conditions, in conditional expansions, macro definitions, sections and false branches; each file is present, missing or a
dangling link, some lie in another directory, some specs have another error, some source directories don't exist. RPM is
asked with the files as they are and with stand-ins in place of the missing ones; that decides which of three outcomes
(untainted, tainted, RPM's error) forced and unforced parsing must have. Then the setting is toggled, the spec edited, saved, copied,
the files created, and the directory compared after every step. Non-trivial: at least one file is missing; distinct by spec
and presence of files."""
ASSUMPTIONS = ["missing files are referenced by the spec itself, not by other included files or by macros", "files don't change without the content or settings of the spec changing"]
REQUIRED = ["tainted", "untainted", "error_forced", "error_unforced", "include", "load", "read", "missing", "present", "dangling", "elsewhere", "other_error", "staged", "direct", "url",
            "false_branch", "in_section", "toggled", "edited", "files_created", "copied", "no_sourcedir", "missing_unneeded", "archives", "noise", "read_unneeded", "long_number"]


class Ref:
    pass


class G:
    def __init__(self, r):
        self.r = r
        self.files = {}  # name -> Ref
        self.n = 0
        self.tags = {}
        self.flags = set()

    def ref(self, kind):
        """A reference to a new file: (source line or None, text of the reference)."""
        r = self.r
        self.n += 1
        f = Ref()
        f.kind = kind
        f.name = r.choice(["f{}.inc", "a-{}.txt", "x{}", "macros.{}", "F{}.rpmlintrc"]).format(self.n)
        f.needed = True
        self.files[f.name] = f
        self.flags.add(kind)
        if kind == "read" or r.random() < 0.65:
            loc = r.choice([f.name, f.name, f"https://e.com/d/{f.name}", f"https://e.com/get?x=1#/{f.name}"])
            if loc != f.name:
                self.flags.add("url")
            num = self.n + r.choice([0, 0, 20, 100, 1230])
            if num > 9:
                self.flags.add("long_number")
            f.source = f"Source{num}: {loc}"
            f.text = r.choice([f"%{{SOURCE{num}}}", f"%{{S:{num}}}", f"%SOURCE{num}"])
            if kind == "read" and r.random() < 0.2:
                f.text = f"%{{?SOURCE{num}}}"
        else:
            f.source = None
            f.text = r.choice([f"%{{_sourcedir}}/{f.name}", f"%_sourcedir/{f.name}"])
            self.flags.add("direct")
        return f

    def read_value(self, f, plain_name):
        r = self.r
        s = r.choice(["%(cat {} 2>/dev/null)", "%(cat {})", "%(head -1 {} 2>/dev/null)", "%(sed -e 's/a/b/' {} | tr -d '\\n')", "%{!?undefd:%(cat {} 2>/dev/null)}", "%(cat {} 2>/dev/null || :)%{?undefd}"])
        return s.replace("{}", f.text, 1) if "%{!" not in s and "%{?" not in s else s.replace("(cat {}", "(cat " + f.text)

    def use(self, f):
        r = self.r
        if f.kind == "include":
            return [r.choice(["", "", "", "  "]) + "%include" + r.choice([" ", " ", "\t", "  "]) + r.choice(["", "", "", "\\\n"]) + f.text + r.choice(["", "", "", " ", "\t"])]
        return [r.choice(["%{load:T}", "%{load:T}", "%{!?undefd:%{load:T}}", "%{!?undefd:%{?version:%{load:T}}}", "%{!?undefd:\n%{load:T}\n}"]).replace("T", f.text)]

    def spec(self):
        r = self.r
        refs = [self.ref(r.choice(["include", "include", "load", "read"])) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
        head = []
        body = []
        late = []
        reads = r.sample(["Version", "Release", "Summary", "License", "URL"], 5)
        values = {"Name": "test", "Version": "1.0", "Release": "1", "Summary": "Test", "License": "MIT"}
        sections = {n: [] for n in ("description", "prep", "build", "files")}
        sections["description"].append("Text.")
        staged = r.random() < 0.5
        for f in refs:
            if f.kind == "read":
                head.append(f.source)
                t = reads.pop()
                v = self.read_value(f, True)
                if r.random() < 0.15:
                    v = "1" + v
                    f.needed = False
                    self.flags.add("read_unneeded")
                values[t] = v
            else:
                use = self.use(f)
                p = r.random()
                if p < 0.15:
                    use = ["%if 0"] + use + ["%endif"]
                    f.needed = False
                    self.flags.add("false_branch")
                elif p < 0.25:
                    use = ["%if 1"] + use + ["%endif"]
                src = [f.source] if f.source else []
                # anything that is read later in the spec can be used in sections only
                if f.kind == "include" and r.random() < 0.3:
                    (head if r.random() < 0.5 else body).extend(src)
                    sections[r.choice(list(sections))].extend(use)
                    self.flags.add("in_section")
                elif staged:
                    body += src + use
                    self.flags.add("staged")
                else:
                    head.extend(src)
                    body += use
        if r.random() < 0.2:
            body += r.choice([["%if 0", "BugURL: %{error:boom}", "%endif"], ["%if 0", "%include %{error:boom}", "%endif"], ["%if 0", "%include /nonexistent/%{undefd", "%endif"],
                              ["%if 0", "%{load:%{error:boom}}", "%endif"]][:2] if r.random() < 0.7 else [["# comment %%include foo"], ["# 100%"]])
            self.flags.add("noise")
        if r.random() < 0.3:
            body += ["Source90: test.tar.gz", "Patch1: a.patch"]
            sections["prep"] += r.choice([["%setup -q -T -a 90", "%patch -P 1 -p1"], ["%patch -P1"], ["%autopatch -p1"]])
            self.flags.add("archives")
        tags = [f"{k}: {values[k]}" for k in values]
        out = head + tags + body
        for s, lines in sections.items():
            if s == "description" or lines:
                out += ["", f"%{s}"] + lines
        return "\n".join(out) + "\n"


OTHER = ["%if 1", "%include /nonexistent-dir/file.inc", "Bad line", "%{error:boom}", "%{load:/nonexistent-dir/file}", "Epoch: x", "Patch1: a\nPatch1: b", "%endif", "BuildArch:"]


def standin(f, blank):
    return b"DUMMY" if f.kind == "read" else blank


def run_case(ctx):
    r = ctx.rng
    g = G(r)
    text = g.spec()
    elsewhere = ctx.tmp / "elsewhere"
    elsewhere.mkdir()
    other = None
    p = r.random()
    if p < 0.12:
        other = r.choice(OTHER)
        i = text.index("\n%description")
        text = text[:i] + other + "\n" + text[i:]
        ctx.count("other_error")
    elif p < 0.2:
        # a file in another directory
        e = elsewhere / "e.inc"
        if r.random() < 0.5:
            e.write_text("")
        i = text.index("\n%description")
        text = text[:i] + r.choice([f"%include {e}", f"%{{load:{e}}}"]) + "\n" + text[i:]
        ctx.count("elsewhere")
    own_dir = r.random() < 0.6
    path = scratch_spec(ctx, text, "t.spec")
    sd = path.parent
    if not own_dir:
        sd = ctx.tmp / "sources"
        if r.random() < 0.9:
            sd.mkdir()
        else:
            ctx.count("no_sourcedir")
    missing = []
    for f in g.files.values():
        k = r.random()
        if not sd.exists() or k < 0.5:
            missing.append(f)
        elif k < 0.57:
            os.symlink(r.choice([sd, elsewhere]) / f"target{f.name}", sd / f.name)
            missing.append(f)
            ctx.count("dangling")
        else:
            (sd / f.name).write_text("7" if f.kind == "read" else r.choice(["", "# nothing\n", "%mac_in_file 1\n" if f.kind == "load" else "%global mac_in_file 1\n"]))
            ctx.count("present")
    ctx.log(repr(text), own_dir, [f.name for f in missing])
    ctx.count("missing", len(missing))
    ctx.count("missing_unneeded", sum(not f.needed for f in missing))
    for f in g.flags:
        ctx.count(f)
    decide(ctx, text, path, sd, own_dir, missing)
    if missing:
        ctx.nontrivial((text, tuple(f.name for f in missing)))


def ask(ctx, text, sd, missing=(), blank=b"\n", **kw):
    """RPM's answer, with stand-ins in place of missing files."""
    made = []
    try:
        if sd.exists():
            for f in missing:
                p = os.path.realpath(sd / f.name)
                with open(p, "wb") as fd:
                    fd.write(standin(f, blank))
                made.append(p)
        return ctx.oracle.ask(text, [], sd, **kw)
    finally:
        for p in made:
            os.unlink(p)


EXPRS = ["%{name}", "%{?mac_in_file}", "%{_sourcedir}", "%{?undefd}x"]


def attempt(fn):
    from specfile.exceptions import RPMException

    try:
        return fn(), None
    except RPMException as e:
        return None, e


def decide(ctx, text, path, sd, own_dir, missing):
    from specfile import Specfile

    r = ctx.rng
    kw = {} if own_dir else {"sourcedir": sd}
    asis = ask(ctx, text, sd, exprs=EXPRS, want=("header",))
    withs = ask(ctx, text, sd, missing, exprs=EXPRS, want=("header",)) if missing and sd.exists() else asis
    if missing and sd.exists() and ask(ctx, text, sd, missing, b"")["ok"] != withs["ok"]:
        # RPM accepts only one of an empty file and a file with an empty line
        raise Skip
    if asis["ok"]:
        want = "untainted"
    elif withs["ok"]:
        want = "tainted"
    else:
        want = "error"
    before = snapshot_tree(ctx.tmp)

    def same(step):
        now = snapshot_tree(ctx.tmp)
        check(now == before, "files were left behind or changed", step=step, text=text, gone=sorted(set(before) - set(now)), new=sorted(set(now) - set(before)),
              changed=sorted(k for k in before if k in now and now[k] != before[k]))

    spec, err = attempt(lambda: Specfile(path, **kw))
    same("open without forced parsing")
    if want == "untainted":
        check(spec is not None, "RPM accepts the spec but it can't be opened", text=text, error=repr(err))
        check(spec.tainted is False, "spec opened without forced parsing is tainted", text=text)
        got_off = observe(spec)
    else:
        check(err is not None, "RPM rejects the spec but it was opened without forced parsing", text=text, stderr=asis["stderr"])
        ctx.count("error_unforced")
    spec = None
    spec, err = attempt(lambda: Specfile(path, force_parse=True, **kw))
    same("open with forced parsing")
    if want == "error":
        check(err is not None, "spec that fails for another reason was opened with forced parsing", text=text, stderr=withs["stderr"], missing=[f.name for f in missing])
        ctx.count("error_forced")
        return
    check(spec is not None, "spec can't be opened with forced parsing", want=want, text=text, error=repr(err), missing=[f.name for f in missing])
    check(spec.force_parse is True, "forced parsing is off")
    check(spec.tainted is (want == "tainted"), "tainted flag is wrong", want=want, got=spec.tainted, text=text, missing=[f.name for f in missing])
    ctx.count(want)
    check(str(spec) == text, "content of the opened spec differs")
    if want == "untainted":
        got_on = observe(spec)
        check(got_on == got_off, "forced parsing gives another result although nothing is missing", text=text, off=got_off, on=got_on)
    usable(ctx, spec, text, withs if want == "tainted" else asis, want)
    same("use of the spec")
    history(ctx, spec, text, path, sd, missing, want, same)


def observe(spec):
    import rpm

    s = spec.rpm_spec
    out = [s.sourceHeader[getattr(rpm, "RPMTAG_" + t)] for t in ("NAME", "VERSION", "RELEASE", "SUMMARY", "LICENSE", "URL")]
    out.append(sorted((n, loc, fl) for loc, n, fl in s.sources))
    out.append(s.prep)
    del s
    out.append([spec.expand(e) for e in EXPRS])
    return out


def usable(ctx, spec, text, ans, want):
    r = ctx.rng
    import rpm

    got = [spec.expand(e) for e in EXPRS]
    check(got == ans["exprs"], "expansions differ from RPM's", got=got, rpm=ans["exprs"], text=text)
    s = spec.rpm_spec
    check(sorted([n, loc, fl] for loc, n, fl in s.sources) == [list(x) for x in ans["sources"]], "sources of the parsed spec differ from RPM's", text=text)
    for t in ("NAME", "VERSION", "RELEASE"):
        if want == "untainted" or "%(" not in text:
            check(s.sourceHeader[getattr(rpm, "RPMTAG_" + t)] == ans["header"][t], "parsed spec differs from RPM's", tag=t, text=text)
        else:
            check(s.sourceHeader[getattr(rpm, "RPMTAG_" + t)], "tag of the parsed spec is empty", tag=t, text=text)
    del s
    for v in r.sample(["tags", "sections", "sources", "patches", "macro_definitions", "prep", "changelog"], 3):
        with getattr(spec, v)():
            pass
    check(str(spec) == text, "reading views changed the content", text=text, got=str(spec))
    check(spec.tainted is (want == "tainted"), "tainted flag changed", want=want)


def history(ctx, spec, text, path, sd, missing, want, same):
    import copy

    from specfile import Specfile

    r = ctx.rng
    for op in r.sample(["toggle", "edit", "copy", "create", "toggle", "error"], 4):
        ctx.log(op)
        if op == "toggle":
            spec.force_parse = False
            if want == "tainted":
                for fn in (lambda: spec.expand("%{name}"), lambda: spec.tainted, lambda: spec.rpm_spec):
                    got, err = attempt(fn)
                    check(err is not None, "RPM rejects the spec but it works without forced parsing", text=text, got=repr(got))
            else:
                check(spec.tainted is False and spec.expand("%{name}") == "test", "switching forced parsing off broke the spec", text=text)
            check(str(spec) == text, "content changed", text=text)
            spec.force_parse = True
            check(spec.tainted is (want == "tainted"), "tainted flag is wrong after switching forced parsing on", want=want, text=text)
            check(spec.expand("%{name}") == "test", "expansion after switching forced parsing on", text=text)
            ctx.count("toggled")
        elif op == "edit":
            with spec.sections() as sections:
                sections.description.append("another line")
            text = str(spec)
            check(spec.tainted is (want == "tainted"), "tainted flag is wrong after an edit", want=want, text=text)
            ctx.count("edited")
        elif op == "copy":
            c = copy.deepcopy(spec)
            check(c.tainted is (want == "tainted") and c.expand("%{name}") == "test", "copy of the spec can't be used", text=text)
            c.force_parse = False
            if want == "tainted":
                check(attempt(lambda: c.expand("%{name}"))[1] is not None, "copy works without forced parsing", text=text)
            check(spec.force_parse is True and spec.tainted is (want == "tainted"), "setting of a copy changed the original")
            del c
            ctx.count("copied")
        elif op == "error":
            with spec.lines() as lines:
                lines.insert(0, "%if 1")
            for fn in (lambda: spec.expand("%{name}"), lambda: spec.tainted):
                got, err = attempt(fn)
                check(err is not None, "RPM rejects the spec for another reason but it works with forced parsing", text=str(spec), got=repr(got))
            same(op)
            with spec.lines() as lines:
                del lines[0]
            check(str(spec) == text and spec.tainted is (want == "tainted"), "spec doesn't work after it was repaired", text=text)
        same(op)
        if op == "create" and sd.exists():
            for f in missing:
                with open(os.path.realpath(sd / f.name), "wb") as fd:
                    fd.write(b"7" if f.kind == "read" else b"")
            now = snapshot_tree(ctx.tmp)
            with spec.sections() as sections:
                sections.description.append("files are there")
            text = str(spec)
            check(spec.tainted is False, "spec is tainted although all files are present", text=text)
            spec.force_parse = False
            check(spec.tainted is False and spec.expand("%{name}") == "test", "spec doesn't work although all files are present", text=text)
            check(snapshot_tree(ctx.tmp) == now, "files were left behind or changed after they were created")
            other = Specfile(path, **({"sourcedir": sd} if sd != path.parent else {}))
            check(other.tainted is False, "spec is tainted although all files are present", text=text)
            ctx.count("files_created")
            return


# -- regressions -------------------------------------------------------------------------------------
H = "Name: test\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n"
D = "\n%description\nText.\n"


def _case(ctx, text, *files):
    g = []
    for k, n in files:
        f = Ref()
        f.kind, f.name = k, n
        g.append(f)
    path = scratch_spec(ctx, text, "t.spec", sub=f"r{ctx.rng.random()}")
    decide(ctx, text, path, path.parent, True, g)
    shutil.rmtree(path.parent)


def f_staged(ctx):
    _case(ctx, H + "Source1: a.inc\n%include %{SOURCE1}\nSource2: b.inc\n%include %{SOURCE2}\n" + D, ("include", "a.inc"), ("include", "b.inc"))


def f_direct(ctx):
    _case(ctx, H + "%include %{_sourcedir}/foo.inc\n" + D, ("include", "foo.inc"))
    _case(ctx, H + "%{load:%{_sourcedir}/foo.inc}\n" + D, ("load", "foo.inc"))


def f_url(ctx):
    _case(ctx, "Source1: https://e.com/v.txt\nName: test\nVersion: %(cat %{SOURCE1} 2>/dev/null)\nRelease: 1\nSummary: s\nLicense: MIT\n" + D, ("read", "v.txt"))


def f_trailing_whitespace(ctx):
    _case(ctx, H + "Source1: a.inc\n%include %{SOURCE1}  \n" + D, ("include", "a.inc"))


def f_unexpandable(ctx):
    _case(ctx, H + "%if 0\nURL: %{error:x}\n%endif\nSource1: a.inc\n%include %{SOURCE1}\n" + D, ("include", "a.inc"))
    _case(ctx, H + "%if 0\n%include %{error:x}\n%endif\nSource1: a.inc\n%include %{SOURCE1}\n" + D, ("include", "a.inc"))


def f_continued_end(ctx):
    _case(ctx, H + "Source1: a.inc\n%include %{SOURCE1}\n" + D + "%include x\\", ("include", "a.inc"))


def fixed_cases():
    return [(n[2:], f) for n, f in sorted(globals().items()) if n.startswith("f_")]
