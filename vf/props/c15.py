"""C15 - parsing leaves no trace in the file system, environment or process."""
import contextlib
import errno
import gc
import os
import random
import resource
import signal
import sys
import tempfile
from pathlib import Path

from vf.core import Skip, check
from vf.gen import generate
from vf.util import enc, split

ID = "C15"
LEVEL = "exploration"
CASES = {"quick": 3000, "thorough": 30000}
RULE = """Generated specs with sources and patches in hostile source directories (present, missing, empty, read-only and
unusually named files, directories and symbolic links of all kinds in place of sources, missing directory), with and without
forced parsing, in environments with and without locale variables. Each case runs 1-6 read-only operations (opening, views,
expanding, expanded properties, parsed spec, copying, editing in memory, content RPM rejects); in two thirds of them one
fault is injected: the k-th open for writing or temporary file fails, the k-th RPM call raises, writing past n bytes fails
(RLIMIT_FSIZE), or file descriptors run out (RLIMIT_NOFILE). An audit hook watches every open for writing, removal, rename
and the like under the spec's and source directories; snapshots of all directories (content, inode, times), the temporary
directory, environment (also of C code), working directory, umask, signal dispositions, file descriptors and their targets,
child processes and standard error are compared after every operation. Non-trivial: at least one stand-in file was created
or one fault was hit; distinct by spec, directory, operations and fault."""
ASSUMPTIONS = ["shell and lua code in the spec has no side effects itself", "removing a file never fails"]
REQUIRED = ["operations", "stand_ins_created", "audit_events", "faults_hit", "fault_open", "fault_rpm", "fault_fsize", "fault_nofile", "rejected",
            "opened", "forced", "forced_dummies", "existing_sources", "dangling_links", "colliding_dirs", "missing_dir", "no_locale", "long_names", "env_compared",
            "recovered", "interrupted", "stderr_checked"]

EVENTS = {"open", "os.remove", "os.rename", "os.truncate", "os.chmod", "os.chown", "os.mkdir", "os.rmdir", "os.symlink", "os.link", "os.utime",
          "tempfile.mkstemp", "tempfile.mkdtemp", "shutil.rmtree", "shutil.copyfile", "shutil.move", "os.chdir", "os.putenv", "os.unsetenv"}


class Monitor:
    def __init__(self):
        self.active = False
        self.busy = False
        sys.addaudithook(self.hook)

    def start(self, roots, existing):
        self.roots = [str(r) + "/" for r in roots]
        self.existing = existing
        self.events = []
        self.bad = []
        self.created = 0
        self.fail_at = None
        self.fault = None
        self.n = 0
        self.hit = False
        self.active = True

    def stop(self):
        self.active = False

    def hook(self, event, args):
        if not self.active or self.busy or event not in EVENTS:
            return
        self.busy = True
        try:
            self.handle(event, args)
        finally:
            self.busy = False

    def handle(self, event, args):
        write = True
        if event == "open":
            mode, flags = args[1], args[2]
            write = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            if not isinstance(args[0], (str, bytes)) or not write:
                return
        paths = [os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(os.fsdecode(a)))), os.path.basename(os.fsdecode(a)))
                 for a in args[:2] if isinstance(a, (str, bytes)) and len(os.fsdecode(a)) > 1]
        if event == "open":
            paths = [os.path.realpath(p) for p in paths[:1]]
        for p in paths:
            if any(p.startswith(r) for r in self.roots):
                self.events.append((event, p))
                if p in self.existing:
                    self.bad.append((event, p))
                elif event == "open":
                    self.created += 1
        if event in ("open", "tempfile.mkstemp") and self.fail_at is not None:
            self.n += 1
            if self.n == self.fail_at:
                self.hit = True
                raise self.fault


_mon = None


def monitor():
    global _mon
    if _mon is None:
        _mon = Monitor()
    return _mon


def tree(root):
    out = {}
    for r, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(r, n)
            st = os.lstat(p)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ("link", os.readlink(p), st.st_ino, st.st_mtime_ns, st.st_ctime_ns)
            elif os.path.isdir(p):
                out[rel] = ("dir", st.st_mode, st.st_ino)
            else:
                with open(p, "rb") as f:
                    out[rel] = ("file", f.read(), st.st_mode, st.st_ino, st.st_mtime_ns, st.st_ctime_ns, st.st_nlink)
    return out


_libc = None


def c_getenv(name):
    global _libc
    if _libc is None:
        import ctypes

        _libc = ctypes.CDLL(None)
        _libc.getenv.restype = ctypes.c_char_p
    return _libc.getenv(name.encode())


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            continue
        if not t.startswith("/proc/") and "/proc/" not in t:
            try:
                out[int(n)] = (t, os.get_inheritable(int(n)))
            except OSError:
                continue
    return out


def process_state():
    with open("/proc/self/status") as f:
        st = {k: v.strip() for k, v in (x.split(":", 1) for x in f.read().splitlines()) if k in ("Umask", "SigBlk", "SigIgn", "SigCgt", "Threads")}
    with open(f"/proc/self/task/{os.getpid()}/children") as f:
        st["children"] = f.read().split()
    e = os.fstat(2)
    return {"cwd": os.getcwd(), "environ": dict(os.environ), "c_env": {k: c_getenv(k) for k in ("LANG", "LC_ALL", "PATH", "TMPDIR")}, "fds": fds(), "stderr": (e.st_dev, e.st_ino),
            "sys.stderr": id(sys.stderr), "status": st, "rlimit": [resource.getrlimit(x) for x in (resource.RLIMIT_FSIZE, resource.RLIMIT_NOFILE, resource.RLIMIT_CORE)]}


NAMES = ["foo-1.0.tar.gz", "a.patch", "b.tar.xz", "c.txt", "dir/d.zip", "https://e.com/e.tgz", "https://e.com/#/f.bz2", "spa ce.txt", "ż.7z", "%{name}.lz", ".hidden",
         "-dash", "t.spec", "x.zst", "y.lrz", "..", ".", "https://e.com/", "L" * 300, "nonutf\udcff", "same", "other/same", "q=r", "https://e.com/s?t=u", "-", "~", "*", "a\\b", "$HOME", "'q'"]


class Case:
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng
        self.root = ctx.tmp / "root"
        self.root.mkdir()
        self.specdir = self.root / "spec"
        self.specdir.mkdir()
        self.outside = self.root / "outside"
        self.outside.mkdir()
        self.tmpdir = ctx.tmp / "tmp"
        self.tmpdir.mkdir()
        self.mode = self.r.choice(["same", "sep", "sep", "missing", "link"])
        self.srcdir = {"same": self.specdir, "sep": self.root / "src", "missing": self.root / "nodir", "link": self.root / "lnk"}[self.mode]
        if self.mode == "sep":
            self.srcdir.mkdir()
        if self.mode == "link":
            (self.root / "real").mkdir()
            self.srcdir.symlink_to("real")
        self.force = self.r.random() < 0.35
        self.missing = False
        self.ctx.count("missing_dir", self.mode == "missing")

    def spec_text(self):
        r = self.r
        if r.random() < 0.3:
            doc = generate(r, changelog=0)
            self.names = ["foo-1.0.tar.gz"]
            return doc.text()
        names = r.sample(NAMES, r.randint(1, 8))
        self.names = names
        out = ["Name: foo", "Version: 1.0", "Release: 1", "Summary: s", "License: MIT"]
        ns = [n for n in names if not n.endswith(".patch")]
        for i, n in enumerate(ns):
            out.append(f"Source{i}: {n}")
        ps = [n for n in names if n.endswith(".patch")]
        for i, n in enumerate(ps):
            out.append(f"Patch{i}: {n}")
        if self.force:
            for _ in range(r.randint(0, 3)):
                k = r.random()
                if k < 0.35:
                    out.append(f"%include %{{_sourcedir}}/inc{r.randint(0, 3)}")
                elif k < 0.6:
                    out.append(f"%{{load:%{{_sourcedir}}/macros.{r.randint(0, 2)}}}")
                elif ns:
                    out.append(f"Epoch: %(cat %{{SOURCE{r.randrange(len(ns))}}} 2>/dev/null | head -c 1)" if r.random() < 0.3 else
                               f"URL: %(cat %{{SOURCE{r.randrange(len(ns))}}} 2>/dev/null | tr -dc a-zA-Z)")
        if r.random() < 0.2:
            out.append("%global sh %(echo out; echo err >&2)")
        out += ["%description", "d", "%prep"]
        if ns and r.random() < 0.6:
            out.append(r.choice(["%setup -q", "%autosetup -N", "%autosetup"]))
        if ps and r.random() < 0.6:
            out.append("%patch 0 -p1")
        return "\n".join(out) + "\n"

    def populate(self):
        from specfile.utils import get_filename_from_location

        r = self.r
        self.ctx.count("long_names", any(len(n) > 255 for n in self.names))
        if self.mode == "missing":
            return
        for n in self.names:
            fn = n.replace("%{name}", "foo").rsplit("/", 1)[-1].split("=")[-1]
            if not fn or fn in (".", "..") or len(fn) > 255:
                continue
            p = self.srcdir / fn
            if os.path.lexists(p):
                continue
            k = r.random()
            if k < 0.45:
                continue
            if k < 0.6:
                p.write_bytes(r.choice([b"", b"data", b"\x1f\x8b" + b"\0" * 20, b"PK00", os.urandom(3) if False else b"xyz"]))
                if r.random() < 0.3:
                    p.chmod(0o400)
                self.ctx.count("existing_sources")
            elif k < 0.7:
                p.mkdir()
                if r.random() < 0.5:
                    (p / "child").write_text("x")
                self.ctx.count("colliding_dirs")
            elif k < 0.85:
                p.symlink_to(r.choice(["nowhere", "../outside/target", "/nonexistent/x/y", "sub/none", fn]))
                self.ctx.count("dangling_links")
            elif k < 0.95:
                (self.outside / "real").write_text("real")
                p.symlink_to("../outside/real" if self.mode != "link" else self.outside / "real")
                self.ctx.count("existing_sources")
            else:
                (self.outside / "real").write_text("real")
                os.link(self.outside / "real", p)
                self.ctx.count("existing_sources")
        if self.force and r.random() < 0.3:
            (self.srcdir / "inc1").write_text("# inc\n")
        if r.random() < 0.3:
            (self.srcdir / "unrelated").write_text("x")


@contextlib.contextmanager
def fault(case, kind, mon):
    """Injects one fault; yields a callable telling whether it was hit."""
    import rpm

    r = case.r
    if kind is None:
        yield lambda: False
    elif kind == "open":
        mon.fail_at = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 13, 17])
        no = r.choice([errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EMFILE])
        mon.fault = r.choice([OSError(no, os.strerror(no)), OSError(no, os.strerror(no)), KeyboardInterrupt(), MemoryError()])
        try:
            yield lambda: mon.hit
        finally:
            mon.fail_at = None
    elif kind == "rpm":
        name = r.choice(["spec", "spec", "expandMacro", "reloadConfig", "addMacro", "delMacro"])
        k = r.choice([1, 2, 3, 4]) if name != "expandMacro" else r.choice([1, 2, 5, 20, 100])
        orig = getattr(rpm, name)
        exc = {"spec": [ValueError("can't parse specfile\n"), KeyboardInterrupt(), MemoryError(), rpm.error("x"), OSError(5, "x")],
               "expandMacro": [rpm.error("error expanding macro"), KeyboardInterrupt()]}.get(name, [rpm.error("x"), KeyboardInterrupt(), OSError(5, "x")])
        exc = r.choice(exc)
        state = {"n": 0, "hit": False}

        def wrapper(*a, **kw):
            state["n"] += 1
            if state["n"] == k:
                state["hit"] = True
                raise exc
            return orig(*a, **kw)

        setattr(rpm, name, wrapper)
        try:
            yield lambda: state["hit"]
        finally:
            setattr(rpm, name, orig)
    elif kind == "fsize":
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (r.choice([0, 5, 12, 200, 1000]), old[1]))
        try:
            yield lambda: True
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)
    elif kind == "nofile":
        old = resource.getrlimit(resource.RLIMIT_NOFILE)
        resource.setrlimit(resource.RLIMIT_NOFILE, (max(fds()) + 1 + r.randint(0, 6), old[1]))
        try:
            yield lambda: True
        finally:
            resource.setrlimit(resource.RLIMIT_NOFILE, old)


def run_case(ctx):
    from specfile import Specfile
    from specfile.exceptions import RPMException, SpecfileException

    import copy

    r = ctx.rng
    case = Case(ctx)
    text = case.spec_text()
    path = case.specdir / "t.spec"
    path.write_bytes(enc(text))
    case.populate()
    env_saved = dict(os.environ)
    tmp_saved = tempfile.tempdir
    loc = r.choice([{}, {"LANG": "C"}, {"LC_ALL": "C.UTF-8"}, {"LANG": "pl_PL.UTF-8", "LC_ALL": "cs_CZ"}, {"LANG": ""}])
    for k in ("LANG", "LC_ALL"):
        os.environ.pop(k, None)
    os.environ.update(loc)
    os.environ["TMPDIR"] = str(case.tmpdir)
    tempfile.tempdir = str(case.tmpdir)
    ctx.count("no_locale", not loc)
    ctx.log("spec", repr(text), "mode", case.mode, "force", case.force, "env", loc)
    ctx.log("directory", sorted((k, v[0], v[1] if v[0] == "link" else "") for k, v in tree(case.root).items()))
    os.chdir(case.root)
    gc.collect()
    gc.disable()
    mon = monitor()
    specs = []
    # warm up caches and lazily imported modules
    process_state()

    def op_open():
        s = Specfile(path, sourcedir=None if case.mode == "same" and r.random() < 0.5 else case.srcdir, force_parse=case.force)
        specs.append(s)
        ctx.count("opened")

    def op_expand():
        specs[-1].expand(r.choice(["%{name}", "%{sources}", "%{?sh}", "%{error:x}", "%{S:0}", "%(echo a)", "%{lua:print(1)}", "%{"]))

    def op_extra():
        specs[-1].expand("%{?x}", extra_macros=[("x", r.choice(["1", "%(echo b)", None]))])

    def op_view():
        v = r.choice(["tags", "sources", "patches", "prep", "sections", "changelog", "macro_definitions", "parsed"])
        if v == "parsed":
            specs[-1].rpm_spec.parsed
            return
        with getattr(specs[-1], v)() as c:
            if v in ("sources", "patches"):
                [x.expanded_filename for x in c]
            if v == "tags":
                [x.expanded_value for x in c]

    def op_edit():
        s = specs[-1]
        with s.sections() as secs:
            secs[0].append(r.choice([f"Source9{r.randint(10, 99)}: new{r.randint(0, 99)}.tar.gz", "%global zz 1", "# c"]))
        s.expanded_version

    def op_break():
        s = specs[-1]
        with s.lines() as lines:
            saved = list(lines)
            lines.insert(r.choice([0, len(lines)]), r.choice(["%if 1", "%include /nonexistent", "%{", "Foo bar", "%{error:boom}"]))
        try:
            s.expand("%{name}")
        finally:
            with s.lines() as lines:
                lines[:] = saved

    def op_copy():
        specs.append(copy.deepcopy(specs[-1]))
        specs[-1].expanded_version

    def op_drop():
        specs.pop()

    def op_props():
        s = specs[-1]
        getattr(s, r.choice(["expanded_version", "expanded_name", "expanded_release", "tainted", "has_autorelease", "has_autochangelog"]))

    def run(op, kind):
        before, tmp_before, proc = tree(case.root), tree(case.tmpdir), process_state()
        existing = {os.path.join(os.path.realpath(os.path.dirname(os.path.join(case.root, k))), os.path.basename(k)) for k in before}
        mon.start([os.path.realpath(case.root)], existing)
        exc = None
        hit = lambda: False  # noqa: E731
        try:
            with fault(case, kind, mon) as hit:
                op()
        except (RPMException, SpecfileException) as e:
            exc = e
            ctx.count("rejected")
        except (OSError, KeyboardInterrupt, MemoryError) as e:
            check(kind is not None, "operation failed though no fault was injected", operation=op.__name__, error=repr(e), history=ctx.trace)
            exc = e
            ctx.count("interrupted")
        except Exception as e:
            check(kind is not None, "operation failed though no fault was injected", operation=op.__name__, error=repr(e), history=ctx.trace)
            exc = e
        finally:
            mon.stop()
        if exc is not None:
            exc.__traceback__ = None
            exc.__context__ = exc.__cause__ = None
        exc_text = repr(exc)
        exc = None
        if kind is not None:
            gc.collect()
        hit = hit()
        what = dict(operation=op.__name__, fault=kind, raised=exc_text, history=ctx.trace)
        ctx.log(op.__name__, "fault", kind, "hit" if hit else "", exc_text)
        check(not mon.bad, "existing file written to or removed", events=mon.bad, **what)
        after = tree(case.root)
        check(after == before, "spec or source directory changed", created=sorted(set(after) - set(before)), removed=sorted(set(before) - set(after)),
              changed=[k for k in after if k in before and after[k] != before[k]], **what)
        check(tree(case.tmpdir) == tmp_before, "temporary files left behind", files=sorted(tree(case.tmpdir)), **what)
        p2 = process_state()
        for k in proc:
            check(p2[k] == proc[k], f"process state changed: {k}", before=proc[k], after=p2[k], **what)
        ctx.count("operations")
        ctx.count("env_compared")
        ctx.count("audit_events", len(mon.events))
        ctx.count("stand_ins_created", mon.created)
        ctx.count("forced_dummies", case.force and mon.created)
        if hit:
            ctx.count("faults_hit")
            ctx.count("fault_" + kind)
        return mon.created or hit

    interesting = False
    saved_err = os.dup(2)
    errfile = open(ctx.tmp / "stderr", "wb+")
    os.dup2(errfile.fileno(), 2)
    try:
        kinds = [None] * 6
        if r.random() < 0.67:
            kinds[r.randrange(2)] = r.choice(["open", "open", "rpm", "rpm", "fsize", "nofile"])
        ops = [op_expand, op_extra, op_view, op_view, op_edit, op_break, op_copy, op_drop, op_props]
        n = r.choice([1, 2, 4, 6])
        faulted = False
        for i in range(n):
            op = r.choice(ops) if specs else op_open
            interesting = run(op, kinds[i]) or interesting
            if faulted and kinds[i] is None and specs:
                ctx.count("recovered")
            faulted = faulted or kinds[i] is not None
        ctx.count("forced", case.force)
        sys.stderr.write("marker\n")
        sys.stderr.flush()
        errfile.seek(0)
        data = errfile.read()
        check(data.endswith(b"marker\n"), "standard error is not where it was", got=data[-200:])
        ctx.count("stderr_checked")
        specs.clear()
    finally:
        os.dup2(saved_err, 2)
        os.close(saved_err)
        errfile.close()
        gc.enable()
        os.environ.clear()
        os.environ.update(env_saved)
        tempfile.tempdir = tmp_saved
        os.chdir("/")
    if interesting:
        ctx.nontrivial(ctx.trace)


# -- regression histories ----------------------------------------------------------------------

MIN = "Name: a\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n"


def _open(ctx, body, force=False):
    from specfile import Specfile

    d = ctx.tmp / "d"
    d.mkdir(exist_ok=True)
    (d / "t.spec").write_text(MIN + body + "%description\n")
    before = tree(d)
    s = Specfile(d / "t.spec", force_parse=force)
    check(tree(d) == before, "directory changed", before=sorted(before), after=sorted(tree(d)))
    return s


def dangling_link(ctx):
    (ctx.tmp / "d").mkdir()
    (ctx.tmp / "d" / "a.tar").symlink_to("nowhere")
    _open(ctx, "Source0: a.tar\n")


def long_name(ctx):
    s = _open(ctx, "Source0: " + "x" * 300 + "\n")
    check(s.expand("%{name}") == "a", "spec with a long name of a source")


def fixed_cases():
    return [("dangling-link", dangling_link), ("long-name", long_name)]
