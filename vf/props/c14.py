"""C14 - macro operations have exact effect on the macro context."""
import os
import re
import tempfile

from vf.core import check
from vf.util import scratch_spec

ID = "C14"
LEVEL = "exploration"
CASES = {"quick": 1200, "thorough": 12000}
RULE = """Histories of 6-30 operations on the process-wide macro context: define, remove and reinit with every threshold of
the library, stacks of 1-30 definitions (plain, parametric, multi-line, empty, self-referential, failing, with backslashes,
tabs and lines similar to %dump's output) made by RPM itself, removal of configuration and built-in macros, listings, and
parsing specs with override lists. After each operation the bodies of all configuration macros and of a pool of names are
read from RPM one by one (%{macrobody}) and compared with a dictionary model; listings are compared with these bodies, with
the options they were defined with, with the levels and the number of macros in RPM's raw %dump. Non-trivial: at least 4
modifying operations; distinct by history."""
ASSUMPTIONS = ["no macro body contains a line that looks exactly like a line of %dump with an existing level",
               "fewer than 20 definitions of one macro fail to expand (more raise MacroRemovalException by design)"]
REQUIRED = ["defines", "removes", "removes_undefined", "stacked", "failing_stacks", "self_references", "reinits", "reinit_levels",
            "dumps", "dump_multiline", "dump_empty", "dump_options", "dump_backslash", "config_removed", "builtin_removed", "parsed",
            "overrides_defined", "overrides_removed", "active_macros", "bodies_compared", "restored", "redefined_config", "repeated_override"]

POOL = ["m_a", "m_b", "m_c", "zz_last", "aa_first", "M_B", "m_ab", "x", "dist_x"]
CONFIG = ["_bindir", "_localstatedir", "optflags", "_smp_mflags", "__scm_setup_git", "_mandir", "dist", "ix86", "__find_debuginfo"]
BUILTIN = ["expand", "uncompress", "basename", "shrink", "quote"]
SEP = "\x01\x02"
_names = None


def raw_dump(rpm):
    """(levels by name as printed, number of macros) from RPM's own dump."""
    saved = os.dup(2)
    with tempfile.TemporaryFile() as f:
        os.dup2(f.fileno(), 2)
        try:
            rpm.expandMacro("%dump")
        finally:
            os.dup2(saved, 2)
            os.close(saved)
        f.seek(0)
        text = f.read().decode("utf8", "surrogateescape")
    count = int(re.search(r"active (\d+)", text.rstrip("\n").rsplit("\n", 1)[1]).group(1))
    return text, count


def bodies(rpm, names):
    lua = "%{lua:local t = {} for n in ('" + " ".join(names) + "'):gmatch('%S+') do if rpm.isdefined(n) then t[#t+1] = n .. '" + SEP[0] + \
          "' .. rpm.expand('%{macrobody:' .. n .. '}') end end print(table.concat(t, '" + SEP[1] + "'))}"
    saved = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        out = rpm.expandMacro(lua)
    finally:
        os.dup2(saved, 2)
        os.close(saved)
        os.close(null)
    res = {}
    for part in out.split(SEP[1]):
        if part:
            n, _, b = part.partition(SEP[0])
            res[n] = b
    return res


def config_names(rpm):
    """Names of all macros in a freshly initialized context."""
    global _names
    if _names is None:
        rpm.reloadConfig()
        text, count = raw_dump(rpm)
        found = re.findall(r"^(?:-\d\d| -\d|  \d)[=:] (\w+)(?:\(.*?\))?(?:\t|$)", text, re.M)
        assert len(found) == count, (len(found), count)
        _names = [n for n in found if n not in ("lua", "dump", "macrobody")]
    return _names


class History:
    def __init__(self, ctx):
        import rpm

        self.ctx, self.r, self.rpm = ctx, ctx.rng, rpm
        self.names = sorted(set(config_names(rpm)) | set(POOL) | set(CONFIG))
        rpm.reloadConfig()
        self.pristine = bodies(rpm, self.names)
        self.model = dict(self.pristine)
        self.opts = {}
        self.changes = 0
        self.k = 0

    def verify(self, what):
        got = bodies(self.rpm, self.names)
        bad = {n: (got.get(n), self.model.get(n)) for n in self.names if got.get(n) != self.model.get(n)}
        check(not bad, "macro context differs from the expected one", operation=what, differences="".join(
            f"\n    {n}: RPM has {a!r}, expected {b!r}" for n, (a, b) in sorted(bad.items())[:8]), history=self.ctx.trace)
        self.ctx.count("bodies_compared", len(self.names))

    def body(self):
        r = self.r
        self.k += 1
        w = f"w{self.k}"
        return r.choice([w, w, w + " x", "", f"\n{w}\n", f"{w}\n\n b\n", f"a\\\n{w}", f"{w}\\", "\\", f"\t{w}\t", f"5: m_q\t{w}", f"{w}\n5: m_q\tb\n12: z",
                         f"{w}\n-7 x: y\tz", "ż" + w, "%%{m_a}", "%%{x}", "%%" + w, "%{?m_b}" + w, "%{lua:print(1)}" + w, f"%{{expand:\n{w}\\\n}}",
                         f"{w}\n- 3: m_q\tb", w + "\n 33: a\tb", "(x)" + w, "=" + w, f"{w}\n========================\n"])

    # -- operations ----------------------------------------------------------------------------
    def name(self, p=0.7):
        return self.r.choice(POOL if self.r.random() < p else CONFIG)

    def define(self):
        from specfile.macros import Macros

        n, b = self.name(), self.body()
        self.ctx.log("define", n, repr(b))
        Macros.define(n, b)
        self.ctx.count("redefined_config", n in CONFIG)
        self.model[n] = b
        self.opts.pop(n, None)
        self.changes += 1
        self.ctx.count("defines")
        if not any(c in b for c in "%"):
            got = Macros.expand(f"%{{{n}}}")
            check(got == b, "defined macro expands to something else", name=n, body=b, got=got, history=self.ctx.trace)

    def remove(self):
        from specfile.macros import Macros

        n = self.r.choice(BUILTIN) if self.r.random() < 0.1 else self.name()
        self.ctx.log("remove", n)
        Macros.remove(n)
        self.ctx.count("removes_undefined", n not in self.model)
        self.ctx.count("config_removed", n in CONFIG and n in self.model)
        self.ctx.count("builtin_removed", n in BUILTIN and n in self.model)
        self.model.pop(n, None)
        self.opts.pop(n, None)
        self.changes += 1
        self.ctx.count("removes")

    def stack(self):
        r, n = self.r, self.name()
        depth = r.choice([1, 2, 2, 3, 5, 12, 30])
        failing = 0
        for _ in range(depth):
            k = r.random()
            if k < 0.15 and failing < 8:
                b = r.choice(["%{error:no}", "%{" + n + "}", "%{lua:error('x')}", "%{expand:%{" + n + "}}"])
                failing += 1
                self.rpm.addMacro(n, b)
                self.opts.pop(n, None)
            elif k < 0.3:
                b = f"%%{{{n}}}"
                self.rpm.addMacro(n, b)
                self.opts.pop(n, None)
                self.ctx.count("self_references")
            elif k < 0.5 and len(n) > 2:
                o = r.choice(["", "a", "ab:", "-", "x:y:z"])
                b = r.choice(["%{1}", "%{?2}z", "%{-a:A}q", "p%*"])
                self.rpm.expandMacro(f"%{r.choice(['define', 'global'])} {n}({o}) {b}\n")
                if "global" in b:
                    b = None
                b = bodies(self.rpm, [n])[n]
                self.opts[n] = o
            else:
                b = self.body()
                self.rpm.addMacro(n, b)
                self.opts.pop(n, None)
            self.model[n] = b
        self.ctx.log("RPM defines", n, depth, repr(self.model[n]))
        self.ctx.count("stacked", depth > 1)
        self.ctx.count("failing_stacks", failing > 0)

    def reinit(self):
        from specfile.macros import MacroLevel, Macros

        lv = self.r.choice([None, None, None, MacroLevel.BUILTIN, MacroLevel.MACROFILES, MacroLevel.RPMRC, MacroLevel.GLOBAL, MacroLevel.DEFAULT])
        self.ctx.log("reinit", lv)
        before = dict(self.model)
        if lv is None:
            Macros.reinit()
            lv = MacroLevel.RPMRC
        else:
            Macros.reinit(lv)
            self.ctx.count("reinit_levels")
        self.model = {n: b for n, b in self.pristine.items() if self.levels()[n] <= lv}
        self.opts = {}
        self.ctx.count("restored", any(before.get(n) != b for n, b in self.model.items()))
        self.changes += 1
        self.ctx.count("reinits")

    _levels = None

    def levels(self):
        if History._levels is None:
            # in a separate process, so that the context of this one stays as the operation left it
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                try:
                    self.rpm.reloadConfig()
                    text, _ = raw_dump(self.rpm)
                    out = "\n".join(f"{n} {lv}" for lv, n in re.findall(r"^(-\d\d| -\d|  \d)[=:] (\w+)(?:\(.*?\))?(?:\t|$)", text, re.M))
                    with os.fdopen(w, "w") as f:
                        f.write(out)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r) as f:
                History._levels = {x.split()[0]: int(x.split()[1]) for x in f.read().splitlines()}
            os.waitpid(pid, 0)
        return History._levels

    def dump(self, macros=None):
        from specfile.macros import Macros

        if macros is None:
            self.ctx.log("dump")
            macros = Macros.dump()
        text, count = raw_dump(self.rpm)
        seen = {}
        for m in macros:
            check(m.name not in seen, "macro listed twice", name=m.name, history=self.ctx.trace)
            seen[m.name] = m
        check(len(macros) == count, "number of listed macros", got=len(macros), rpm=count, history=self.ctx.trace)
        actual = bodies(self.rpm, self.names)
        for n in self.names:
            check((n in seen) == (n in actual), "macro is (not) listed", name=n, listed=n in seen, defined=n in actual, history=self.ctx.trace)
            if n not in seen:
                continue
            m, b = seen[n], actual[n]
            if b.startswith("<"):
                continue
            want = b.replace("\\\n", "").lstrip("\n")
            check(m.body.lstrip("\n") == want, "body of a listed macro", name=n, got=m.body, rpm=b, history=self.ctx.trace)
            if n in POOL:
                o = self.opts.get(n)
                check((m.options or None) == (f"({o})" if o else None), "options of a listed macro", name=n, got=m.options, defined_with=o, history=self.ctx.trace)
                self.ctx.count("dump_options", bool(o))
            mk = re.search(r"^(-\d\d| -\d|  \d)([=:]) " + n + r"(?=[(\t\n])", text, re.M)
            check(mk and int(m.level) == int(mk.group(1)), "level of a listed macro", name=n, got=int(m.level), rpm=mk and mk.group(1), history=self.ctx.trace)
            self.ctx.count("dump_multiline", n in POOL and "\n" in want)
            self.ctx.count("dump_empty", n in POOL and not b)
            self.ctx.count("dump_backslash", n in POOL and b.endswith("\\"))
        self.ctx.count("dumps")

    def spec(self):
        from specfile import Specfile

        r = self.r
        ov = []
        for _ in range(r.choice([0, 1, 2, 4])):
            n = self.name(0.6)
            ov.append((n, None if r.random() < 0.3 else self.body()))
        text = ("Name: a\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n%global spec_own 1\n" + r.choice(["", "%define m_zz %{nil}\n"]) + "%description\n")
        path = scratch_spec(self.ctx, text)
        self.ctx.log("spec with", ov)
        plain = Specfile(path)
        plain.expand("")
        base = bodies(self.rpm, self.names)
        s = Specfile(path, macros=ov)
        s.expand("")
        want = dict(base)
        for n, v in ov:
            if v is None:
                want.pop(n, None)
            else:
                want[n] = v
        got = bodies(self.rpm, self.names)
        bad = {n: (got.get(n), want.get(n)) for n in self.names if got.get(n) != want.get(n) and n != "_sourcedir"}
        check(not bad, "overrides of a spec have a different effect", overrides=ov, differences=bad, history=self.ctx.trace)
        self.ctx.count("overrides_defined", any(v is not None for _, v in ov))
        self.ctx.count("overrides_removed", any(v is None for _, v in ov))
        self.ctx.count("repeated_override", len({n for n, _ in ov}) < len(ov))
        for n, v in ov:
            if want.get(n) is None:
                check(s.expand(f"%{{!?{n}:no}}") == "no", "removed macro is defined", name=n, overrides=ov)
            elif "%" not in want[n]:
                check(s.expand(f"%{{{n}}}") == want[n], "overridden macro expands to something else", name=n, overrides=ov)
        self.opts = {}
        if r.random() < 0.6:
            self.dump(s.get_active_macros())
            self.ctx.count("active_macros")
        self.model = bodies(self.rpm, self.names)
        self.ctx.count("parsed")

    def step(self):
        op = self.r.choices([self.define, self.remove, self.stack, self.reinit, self.dump, self.spec], [5, 4, 4, 1.5, 3, 0.8])[0]
        op()
        if op != self.spec:
            self.verify(op.__name__)


def run_case(ctx):
    import rpm

    h = History(ctx)
    h.verify("start")
    for _ in range(ctx.rng.choice([6, 12, 20, 30])):
        h.step()
    for n in POOL:
        from specfile.macros import Macros

        Macros.remove(n)
        h.model.pop(n, None)
    h.verify("removal of all")
    h.dump()
    rpm.reloadConfig()
    if h.changes >= 4:
        ctx.nontrivial(ctx.trace)


def _clean():
    import rpm
    from specfile.macros import Macros

    rpm.reloadConfig()
    return rpm, Macros


def dump_empty(ctx):
    rpm, Macros = _clean()
    rpm.addMacro("m_a", "1")
    rpm.addMacro("m_b", "")
    rpm.addMacro("zz", "x\\")
    d = {m.name: m.body for m in Macros.dump()}
    check(d.get("m_a") == "1" and d.get("m_b") == "" and d.get("zz") == "x\\", "listing", got={k: d.get(k) for k in ("m_a", "m_b", "zz")})
    rpm.reloadConfig()


def dump_like_line(ctx):
    rpm, Macros = _clean()
    rpm.addMacro("m_a", "a\n5: foo\tbar")
    d = {m.name: m.body for m in Macros.dump()}
    check(d.get("m_a") == "a\n5: foo\tbar" and "foo" not in d, "listing", got=d.get("m_a"))
    rpm.reloadConfig()


def remove_self_reference(ctx):
    rpm, Macros = _clean()
    rpm.addMacro("m_a", "%%{m_a}")
    rpm.addMacro("m_a", "1")
    Macros.remove("m_a")
    check(rpm.expandMacro("%{!?m_a:undefined}") == "undefined", "removed macro is still defined")


def fixed_cases():
    return [("dump-empty", dump_empty), ("dump-like-line", dump_like_line), ("remove-self-reference", remove_self_reference)]
