"""C24 - sources that are missing do not change what parsing yields."""
import bz2
import gzip
import io
import lzma
import re
import zipfile

from vf.core import check
from vf.util import scratch_spec

ID = "C24"
LEVEL = "exploration"
CASES = {"quick": 3000, "thorough": 20000}
RULE = """Specs with 1-6 sources and 0-4 patches (tags and list sections, plain, URL and fragment locations, macros in names, extensions of all
compression formats RPM recognizes and of none), used by %setup (-a, -b, -T, -D, -c, -n, -q), %autosetup, %patch of all styles, %autopatch
and %{uncompress:} in %prep and %build, and shell expansions that read the first bytes of a source, from which the check tells
the type the way RPM does. Every file is missing, present with content of the type its name suggests, of another type, or
empty. First RPM is asked, in a process of its own, for the result with real archives in place of all missing files; they are removed and the
spec is opened: the parsed content, the generated %prep script, parsed sections, source list and expansions have to be the same, the
directory as before. Then files are added, replaced and removed together with edits of the spec and everything is compared again.
Non-trivial: at least one missing file whose content determines how a macro expands; distinct by spec and presence of files."""
ASSUMPTIONS = ["the source directory exists and is writable", "files don't change without the content of the spec changing", "compression is told by one of the extensions bz2, zip, xz, zst, lz, lrz, gz, 7z"]
REQUIRED = ["specs", "missing", "present", "other_type", "empty", "all_missing", "setup", "autosetup", "patch", "uncompress", "probe", "parsed_compared", "prep_compared",
            "bz2", "zip", "xz", "zst", "lz", "lrz", "gz", "7z", "none", "forced", "reparsed", "sensitive", "uppercase"]


def _zip():
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        z.writestr("a", "a")
    return b.getvalue()


# content as the respective compressor produces it; where there is none at hand, the signature from the format's specification
DATA = {
    "gz": gzip.compress(b"some content", mtime=0), "bz2": bz2.compress(b"some content"), "xz": lzma.compress(b"some content"), "zip": _zip(),
    "zst": b"\x28\xb5\x2f\xfd" + b"\x04\x00" * 10, "lz": b"LZIP\x01" + b"\x0c" * 20, "lrz": b"LRZI\x00\x06" + b"\x00" * 20, "7z": b"7z\xbc\xaf\x27\x1c\x00\x04" + b"\x11" * 20,
    "none": b"plain content, nothing compressed here\n" * 3,
}
EXT = {"gz": ["tar.gz", "gz", "patch.gz"], "bz2": ["tar.bz2", "bz2"], "xz": ["tar.xz", "xz"], "zip": ["zip"], "zst": ["tar.zst"], "lz": ["tar.lz"], "lrz": ["tar.lrz"], "7z": ["7z"],
       "none": ["tar", "txt", "patch", "conf", "tar.GZ", "gz.asc", "tar.xz.sig", "zipped", "xml"]}


class F:
    def __init__(self, r, i, patch=False):
        self.kind = r.choice(list(DATA)) if not patch or r.random() < 0.3 else "none"
        self.ext = r.choice(EXT[self.kind])
        base = r.choice([f"file{i}", f"a-{i}", f"%{{name}}{i}-%{{version}}", f"x_{i}.y"])
        self.literal = f"{base}.{self.ext}"
        self.name = self.literal.replace("%{name}", "test").replace("%{version}", "0.1")
        self.location = r.choice([self.literal, self.literal, f"https://example.com/dl/{self.literal}", f"%{{url}}/{self.literal}", f"https://example.com/dl?id={i}#/{self.literal}"])
        self.state = r.choice(["missing", "missing", "missing", "present", "other", "empty"])
        self.other = r.choice(list(DATA))

    def data(self):
        return b"" if self.state == "empty" else DATA[self.other if self.state == "other" else self.kind]


def build(ctx):
    r = ctx.rng
    srcs = [F(r, i) for i in range(r.randint(1, 6))]
    patches = [F(r, 10 + i, True) for i in range(r.choice([0, 1, 2, 2, 3, 4]))]
    lines = ["Name: test", "Version: 0.1", "Release: 1", "Summary: Test", "License: MIT", "URL: https://example.com"]
    ns, np = len(srcs), len(patches)
    lists = ns if r.random() < 0.7 else r.randint(1, ns)
    plists = np if r.random() < 0.7 else r.randint(0, np)
    for i, f in enumerate(srcs[:lists]):
        lines.append(f"Source{i}: {f.location}")
    for i, f in enumerate(patches[:plists]):
        lines.append(f"Patch{i}: {f.location}")
    lines += ["%description", "Text."]
    if lists < ns:
        lines += ["%sourcelist"] + [f.location for f in srcs[lists:]]
    if plists < np:
        lines += ["%patchlist"] + [f.location for f in patches[plists:]]
    used = set()
    lines.append("%prep")
    for _ in range(r.randint(1, 3)):
        if r.random() < 0.6:
            o = r.choice(["", " -q", " -c", " -n x", " -q -n %{name}"])
            if r.random() < 0.3:
                o += " -T"
            else:
                used.add(srcs[0])
            if r.random() < 0.3:
                o += " -D"
            for c in "ab":
                if r.random() < 0.4:
                    n = r.randrange(ns)
                    o += f" -{c} {n}" if r.random() < 0.5 else f" -{c}{n}"
                    used.add(srcs[n])
            lines.append("%setup" + o)
            ctx.count("setup")
        else:
            lines.append("%autosetup" + r.choice(["", " -p1", " -N", " -n y -v", " -p1 -N -v", " -a 0", " -T -b 0"]))
            used.add(srcs[0])
            used.update(patches if "-N" not in lines[-1] else [])
            ctx.count("autosetup")
    for n, f in enumerate(patches):
        if r.random() < 0.6:
            lines.append(r.choice([f"%patch{n}", f"%patch{n} -p1", f"%patch {n}", f"%patch -P {n} -p1 -b .x", f"%patch -P{n}"]))
            used.add(f)
            ctx.count("patch")
    if patches and r.random() < 0.15:
        lines.append("%autopatch -p1")
        used.update(patches)
    if r.random() < 0.5:
        if r.random() < 0.5:
            lines.append("%build")
        for n, f in enumerate(srcs):
            if r.random() < 0.4:
                lines.append(f"%{{uncompress:%{{SOURCE{n}}}}} | cat")
                used.add(f)
                ctx.count("uncompress")
    probed = [n for n in range(ns) if r.random() < 0.4]
    if probed:
        # RPM's own tools decide on compression at build time, this makes what they would see visible
        lines.append("%install")
        for n in probed:
            lines.append("echo " + PROBE % f"%{{SOURCE{n}}}")
            used.add(srcs[n])
            ctx.count("probe")
    return "\n".join(lines) + "\n", srcs, patches, used


def classify(h):
    """Type of compression as RPM tells it from the first 13 bytes of a file."""
    b = bytes.fromhex(h)
    if len(b) < 13:
        return "none"
    if b[:3] == b"BZh":
        return "bz2"
    if b[:4] in (b"PK\x03\x04", b"PK00"):
        return "zip"
    if b[:6] == b"\xfd7zXZ\x00":
        return "xz"
    if b[:3] == b"\x28\xb5\x2f":
        return "zst"
    if b[:4] == b"LZIP":
        return "lz"
    if b[:4] == b"LRZI":
        return "lrz"
    if b[0] == 0o37 and b[1] in (0o213, 0o236, 0o36, 0o235, 0o240):
        return "gz"
    if b[:6] == b"7z\xbc\xaf\x27\x1c":
        return "7z"
    return "none"


PROBE = "probe:%(head -c 13 %s | od -An -v -tx1 | tr -d ' \\n').".replace("%(", "%%(")


def reveal(text):
    return re.sub(r"probe:([0-9a-f]*)\.", lambda m: "probe:" + classify(m.group(1)) + ".", text)


def tree(d):
    return {p.name: p.read_bytes() for p in d.iterdir()}


def expected(ctx, text, d, files, exprs):
    """RPM's answer with archives in place of missing files."""
    made = []
    for f in files:
        p = d / f.name
        if not p.exists():
            p.write_bytes(DATA[f.kind])
            made.append(p)
    try:
        return ctx.oracle.ask(text, [], d, exprs=exprs, want=("parsed", "prep", "header"), strict=True)
    finally:
        for p in made:
            p.unlink()


def compare(ctx, spec, ans, text):
    from specfile.sections import Sections

    parsed, prep = reveal(spec.rpm_spec.parsed), spec.rpm_spec.prep
    ans = dict(ans, parsed=reveal(ans["parsed"]))
    check(parsed == ans["parsed"], "parsed content differs from that with the files present", got=parsed, rpm=ans["parsed"], text=text)
    check(prep == ans["prep"], "%prep script differs from that with the files present", got=prep, rpm=ans["prep"], text=text)
    ctx.count("parsed_compared")
    ctx.count("prep_compared")
    got = [reveal(ln) for ln in spec.parsed_sections.prep]
    want = [ln for s in Sections.parse(ans["parsed"].splitlines()) if s.name == "prep" for ln in s]
    check(got == want, "parsed %prep differs", got=got, want=want, text=text)
    got = sorted((n, loc, fl) for loc, n, fl in spec.rpm_spec.sources)
    check(got == [tuple(x) for x in ans["sources"]], "list of sources differs", got=got, rpm=ans["sources"])
    check(spec.tainted is False, "spec is tainted")
    check(str(spec) == text, "content changed by parsing")


EXPRS = ["%{name}-%{version}", "%{S:0}", "%{?sources}", "%{url}"]


def run_case(ctx):
    from specfile import Specfile

    r = ctx.rng
    text, srcs, patches, used = build(ctx)
    files = srcs + patches
    if r.random() < 0.2:
        for f in files:
            f.state = "missing"
        ctx.count("all_missing")
    d = ctx.tmp / "src"
    d.mkdir()
    for f in files:
        ctx.count(f.kind)
        ctx.count("uppercase", f.ext == "tar.GZ")
        if f.state != "missing":
            (d / f.name).write_bytes(f.data())
        ctx.count({"other": "other_type"}.get(f.state, f.state))
    ctx.log(repr(text), [(f.name, f.state, f.other) for f in files])
    ans = expected(ctx, text, d, files, EXPRS)
    check(ans["ok"], "harness: generated spec isn't accepted by RPM", text=text, stderr=ans.get("stderr"))
    before = tree(d)
    force = r.random() < 0.3
    ctx.count("forced", force)
    spec = Specfile(scratch_spec(ctx, text), sourcedir=d, force_parse=force)
    compare(ctx, spec, ans, text)
    got = [spec.expand(e) for e in EXPRS]
    check(got == ans["exprs"], "expansion differs", got=got, rpm=ans["exprs"], text=text)
    check(tree(d) == before, "content of the source directory changed", before=sorted(before), after=sorted(tree(d)))
    ctx.count("specs")
    # files come and go along with edits
    for _ in range(r.choice([0, 0, 1, 2])):
        for f in r.sample(files, min(len(files), r.randint(1, 3))):
            f.state = r.choice(["missing", "present", "other", "empty"])
            p = d / f.name
            if f.state == "missing":
                p.unlink(missing_ok=True)
            else:
                p.write_bytes(f.data())
        line = f"# {r.randint(0, 10 ** 9)}"
        with spec.sections() as sections:
            sections.prep.append(line)
        text = str(spec)
        ctx.log("change", [(f.name, f.state, f.other) for f in files])
        ans = expected(ctx, text, d, files, EXPRS)
        check(ans["ok"], "harness: edited spec isn't accepted by RPM", text=text, stderr=ans.get("stderr"))
        before = tree(d)
        compare(ctx, spec, ans, text)
        check(tree(d) == before, "content of the source directory changed", before=sorted(before), after=sorted(tree(d)))
        ctx.count("reparsed")
    if any(f.state == "missing" for f in used):
        ctx.count("sensitive")
        ctx.nontrivial(ctx.trace)


def f_all(ctx):
    """Every type, used by %setup."""
    from specfile import Specfile

    for kind, exts in EXT.items():
        for ext in exts:
            text = ("Name: test\nVersion: 0.1\nRelease: 1\nSummary: Test\nLicense: MIT\n" f"Source0: a.{ext}\nPatch0: b.{ext}\n%description\n%prep\n%setup -q\n%patch0\n"
                    "%{uncompress:%{SOURCE0}}\n%install\n" + PROBE % "%{SOURCE0}" + PROBE % "%{PATCH0}" + "\n")
            d = ctx.tmp / kind / ext
            d.mkdir(parents=True)
            for n in "ab":
                (d / f"{n}.{ext}").write_bytes(DATA[kind])
            ans = ctx.oracle.ask(text, [], d, want=("parsed", "prep", "header"), strict=True)
            check(ans["ok"], "harness: spec isn't accepted by RPM", stderr=ans.get("stderr"))
            for n in "ab":
                (d / f"{n}.{ext}").unlink()
            compare(ctx, Specfile(scratch_spec(ctx, text), sourcedir=d), ans, text)


def fixed_cases():
    return [("all", f_all)]
