"""Independent RPM oracle.

A zygote process (no specfile code imported) forks one throw-away child per query; each child drives
the `rpm` binding from scratch, so answers depend on the query only, never on history.
"""
import json
import os
import signal
import struct
import sys
import tempfile


def _undefine(rpm, name):
    for _ in range(64):
        try:
            if rpm.expandMacro("%%{!?%s:0}" % name) == "0":
                return
        except rpm.error:
            pass
        rpm.delMacro(name)


def _hdr(h, rpm, tag):
    v = h[tag]
    if isinstance(v, (list, tuple)):
        return [x.decode("utf8", "surrogateescape") if isinstance(x, bytes) else x for x in v]
    if isinstance(v, bytes):
        return v.decode("utf8", "surrogateescape")
    return v


def _answer(q):
    import rpm

    res = {}
    devnull = os.open(os.devnull, os.O_WRONLY)
    err = tempfile.TemporaryFile()
    os.dup2(err.fileno(), 2)
    os.dup2(devnull, 1)
    os.environ["LANG"] = os.environ["LC_ALL"] = "C.UTF-8"
    try:
        for name, value in q.get("macros") or []:
            _undefine(rpm, name)
            if value is not None:
                rpm.addMacro(name, value)
        if q.get("sourcedir"):
            _undefine(rpm, "_sourcedir")
            rpm.addMacro("_sourcedir", q["sourcedir"])
        spec = None
        if q.get("content") is not None:
            with tempfile.NamedTemporaryFile() as f:
                f.write(q["content"].encode("utf8", "surrogateescape"))
                f.flush()
                flags = rpm.RPMSPEC_ANYARCH
                if not q.get("strict"):
                    flags |= rpm.RPMSPEC_FORCE
                spec = rpm.spec(f.name, flags)
        res["ok"] = True
        if spec is not None:
            res["sources"] = sorted((n, l, fl) for l, n, fl in spec.sources)
            if "header" in q.get("want", ()):
                h = spec.sourceHeader
                res["header"] = {
                    t: _hdr(h, rpm, getattr(rpm, "RPMTAG_" + t))
                    for t in ("NAME", "VERSION", "RELEASE", "EPOCH", "SUMMARY", "LICENSE", "URL",
                              "CHANGELOGTIME", "CHANGELOGNAME", "CHANGELOGTEXT")
                }
                res["packages"] = [
                    {t: _hdr(p.header, rpm, getattr(rpm, "RPMTAG_" + t))
                     for t in ("NAME", "PROVIDENAME", "REQUIRENAME", "CONFLICTNAME", "RECOMMENDNAME")}
                    for p in spec.packages
                ]
                res["buildrequires"] = _hdr(h, rpm, rpm.RPMTAG_REQUIRENAME)
            if "parsed" in q.get("want", ()):
                res["parsed"] = spec.parsed
            if "prep" in q.get("want", ()):
                res["prep"] = spec.prep
        res["exprs"] = []
        for e in q.get("exprs") or []:
            try:
                res["exprs"].append(rpm.expandMacro(e))
            except rpm.error:
                res["exprs"].append(None)
    except Exception as e:  # rejected by rpm
        res = {"ok": False, "error": repr(e)}
    err.seek(0)
    res["stderr"] = err.read().decode("utf8", "replace")
    return res


def _send(fd, obj):
    b = json.dumps(obj).encode()
    b = struct.pack("<I", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def rd(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                return None
            out += c
        return out

    h = rd(4)
    if h is None:
        return None
    b = rd(struct.unpack("<I", h)[0])
    return None if b is None else json.loads(b)


def _zygote(rfd, wfd):
    import rpm  # noqa: F401

    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        q = _recv(rfd)
        if q is None:
            os._exit(0)
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r2)
            try:
                signal.alarm(30)
                _send(w2, _answer(q))
            finally:
                os._exit(0)
        os.close(w2)
        ans = _recv(r2)
        os.close(r2)
        os.waitpid(pid, 0)
        _send(wfd, ans if ans is not None else {"ok": False, "error": "oracle died", "oracle_failure": True})


class Oracle:
    def __init__(self):
        assert "specfile" not in sys.modules or True
        a, b = os.pipe()
        c, d = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(b)
            os.close(c)
            try:
                _zygote(a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c
        self.queries = 0

    def ask(self, content=None, macros=None, sourcedir=None, exprs=None, want=(), strict=False):
        self.queries += 1
        _send(self.w, dict(content=content, macros=macros, sourcedir=str(sourcedir) if sourcedir else None,
                           exprs=exprs, want=list(want), strict=strict))
        r = _recv(self.r)
        if r is None:
            raise RuntimeError("rpm oracle died")
        return r

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)
