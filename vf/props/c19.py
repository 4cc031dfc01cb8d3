"""C19 - release handling keeps the dist suffix and bumping always moves forward."""
import re

from vf.core import Skip, check
from vf.util import line_diff, scratch_spec

ID = "C19"
LEVEL = "exploration"
CASES = {"quick": 2400, "thorough": 30000}
RULE = """Generated specs with some thirty shapes of releases (plain, 0.x, pre-release words, macros, conditionals, shell, lua and
expression expansions, dist as %dist, %{dist} and %{?dist}, minor bumps, trailing text), in macros named release or
baserelease (also commented out, in false branches, with other macros around) or in the tag, with conditional Release tags,
different spelling and whitespace, autosave on and off, and %autorelease in several forms; then histories of 1-6 bumps,
settings of release and settings of version and release. Oracle: a fresh RPM process on the content before and after gives
release and version (compared with rpm.labelCompare), and the expected text of the changed line is known. Non-trivial: every
case with at least one accepted operation; distinct by content and history."""
ASSUMPTIONS = ["at most one active definition of a macro named release or baserelease, and the Release tag uses it",
               "the dist suffix is at the end of the release, optionally followed by a minor bump"]
REQUIRED = ["bumps", "sets", "set_both", "set_default", "via_macro", "via_tag", "autorelease", "minorbump_dropped", "dist_kept", "conditional", "commented_macro",
            "invalid_macro", "prerelease_words", "repeated_bumps", "read_back", "autosave", "rpm_compared", "nested_sets"]

DIST = ["%{?dist}", "%{?dist}", "%{dist}", "%dist"]


def release(r, macro_ok=True):
    n = str(r.choice([0, 1, 2, 9, 10, 99, 20230101]))
    forms = [n, n, "0." + n, n + ".1", "0." + n + ".rc1", n + ".rc1", n + ".beta.3", n + "~alpha2", "rc" + n, "0.rc" + n, n + "a", "0" + n, n + ".el%{?rhel}9",
             "0." + n + ".20230101git%{shortc}", n + "%{?pre:.rc1}", "%{rel}", "%{?rel}", "%rel", "0.%{rel}", "%{rel}." + n, "%(echo 3)", "%[1+" + n + "]", "%{lua:print(4)}",
             "%{rel}." + n + ".alpha", "%{?nosuch:1.}" + n, "%{!?nosuch:4}", n + "^git" + n, n + "_" + n, "alpha." + n, n + ".%{rel}", "%{expand:" + n + "}", n + "%{nil}"]
    v = r.choice(forms)
    tail = ""
    p = r.random()
    if p < 0.65:
        tail = r.choice(DIST)
        if r.random() < 0.3:
            tail += f".{r.choice([0, 1, 5, 9, 12])}"
    elif p < 0.72:
        tail = r.choice(DIST[:3]) + r.choice(["%{?extra}", ".x%{nil}", "%{?extra}.2"])
    return v + tail


def dist_of(value):
    """(release, dist as written, minor bump)"""
    for d in ("%{?dist}", "%{dist}", "%dist"):
        m = re.search(re.escape(d) + r"(\.[0-9]+)?$", value)
        if m:
            return value[:m.start()], d, m.group(1)
    return value, "", None


class Doc:
    def __init__(self, r):
        self.r = r
        L = self.lines = ["%global rel 5", "%global shortc abc"]
        self.macro = None  # index of the line that defines the release
        self.feature = set()
        self.auto = r.random() < 0.1
        if self.auto:
            rel = r.choice(["%autorelease", "%{autorelease}", "%{?autorelease}", "%autorelease -b 5", "%{autorelease -e x}", "%{?rel:%autorelease}", "%{!?nosuch:%{autorelease -p}}"])
            self.feature.add("autorelease")
            if r.random() < 0.3:
                L.append("%global baserelease 1")
        elif r.random() < 0.35:
            name = r.choice(["baserelease", "baserelease", "release", "BaseRelease", "RELEASE"])
            body = release(r)
            kw = r.choice(["%global", "%define"])
            p = r.random()
            if p < 0.15:
                L.append(r.choice(["%dnl ", "#%"]) + f"{kw} {name} 3")
                self.feature.add("commented_macro")
            elif p < 0.3:
                L += ["%if 0", f"{kw} {name} 3", "%endif"]
                self.feature.add("invalid_macro")
            if r.random() < 0.15:
                L.append("%if 1")
                self.macro = len(L)
                L.append(f"{kw} {name} {body}")
                L.append("%endif")
                self.feature.add("conditional")
            else:
                self.macro = len(L)
                L.append(r.choice(["", "", " "]) + kw + r.choice([" ", "  ", "\t"]) + name + r.choice([" ", "   "]) + body)
            self.body = body
            rel = r.choice([f"%{{{name}}}", f"%{{{name}}}%{{?dist}}", f"%{name}", f"%{{?{name}}}", f"0.%{{{name}}}", f"%{{{name}}}%{{?dist}}.2"])
            if "dist" in body:
                rel = f"%{{{name}}}"
            self.feature.add("via_macro")
        else:
            rel = release(r)
            p = r.random()
            if p < 0.2:
                L.append(r.choice(["%dnl %global baserelease 3", "#%%global release 3", "#global release 3", "%dnl%define release 7"]))
                self.feature.add("commented_macro")
            elif p < 0.35:
                L += ["%if 0", "%global baserelease 3", "%endif"]
                self.feature.add("invalid_macro")
            elif p < 0.45:
                L.append("%global myrelease 3")
            self.feature.add("via_tag")
        self.rel = rel
        tags = [["Name: test"], ["Version: 1.2"], ["Summary: release 1 %{?dist}"], ["License: MIT"], ["# Release: 77"]]
        line = r.choice(["Release", "Release", "release", "RELEASE"]) + r.choice([":", ": ", ":    ", ":\t", " : "]) + rel
        self.trail = r.choice(["", "", "", " ", "\t"])
        cond = r.random() < 0.15
        if cond:
            self.feature.add("conditional")
            blk = ["%if 1", line + self.trail, "%else", "Release: 9%{?dist}", "%endif"] if r.random() < 0.5 else ["%if 0", "Release: 9%{?dist}", "%else", line + self.trail, "%endif"]
        else:
            blk = [line + self.trail]
        tags.insert(r.randint(0, len(tags)), blk)
        self.pre = line[:len(line) - len(rel)]
        for t in tags:
            L += t
        self.tag = L.index(line + self.trail)
        self.ver = L.index("Version: 1.2")
        L += ["%description", "Release 1", "%files", "%changelog", "* Tue May 04 2021 x <a@b> - 1.2-1", "- release"]


def run_case(ctx):
    import rpm
    from specfile import Specfile

    r = ctx.rng
    doc = Doc(r)
    macros = [("autorelease(e:s:pb:n)", "7")] if doc.auto else []
    text = "\n".join(doc.lines) + "\n"
    (ctx.tmp / "d").mkdir(exist_ok=True)

    def ask(t):
        return ctx.oracle.ask(t, [list(m) for m in macros], ctx.tmp / "d", want=("header",))

    ans = ask(text)
    if not ans["ok"]:
        raise Skip("content rejected by RPM")
    autosave = r.random() < 0.2
    path = scratch_spec(ctx, text)
    spec = Specfile(path, macros=list(macros), autosave=autosave)
    ctx.log("spec", repr(text))
    cur = doc.rel
    lines = list(doc.lines)
    bumps = 0
    done = 0
    for _ in range(r.choice([1, 1, 2, 3, 4, 6])):
        op = r.choice(["bump", "bump", "set", "both", "default"])
        old_ans = ans
        before = str(spec)
        if op == "bump":
            ctx.log("bump_release")
            spec.bump_release()
            new = str(spec)
            if "%autorelease" in cur or "{autorelease" in cur or "{?autorelease" in cur:
                check(new == before, "bumping changed a spec with automatic release", diff=line_diff(lines, new.split("\n")[:-1]), history=ctx.trace)
                ctx.count("autorelease")
                continue
            if doc.auto and "%global baserelease 1" in lines:
                raise Skip("the tag doesn't use the macro")
            nl = new.split("\n")[:-1]
            check(len(nl) == len(lines), "bumping added or removed lines", history=ctx.trace)
            changed = [i for i in range(len(nl)) if nl[i] != lines[i]]
            macro = doc.macro if doc.macro is not None and doc.macro_used(cur) else doc.tag
            if doc.macro is not None and not doc.macro_used(cur):
                raise Skip("the tag no longer uses the macro")
            check(changed == [macro], "bumping changed other lines than the one that defines the release", diff=line_diff(lines, nl), expected=lines[macro], history=ctx.trace)
            o, n = lines[macro], nl[macro]
            if macro == doc.macro:
                m1, m2 = re.match(r"^\s*%\w+\s+\w+\s+", o).group(), re.match(r"^\s*%\w+\s+\w+\s+", n)
                check(m2 is not None and m1 == m2.group(), "bumping changed more than the value", old=o, new=n, history=ctx.trace)
                ctx.count("via_macro")
            else:
                check(n.startswith(doc.pre) and n.endswith(doc.trail), "bumping changed more than the value", old=o, new=n, history=ctx.trace)
                cur = n[len(doc.pre):len(n) - len(doc.trail)]
                ctx.count("via_tag")
            # macros and text are kept: only digits may differ, or something is appended
            so, sn = re.sub(r"\d+", "#", o.rstrip()), re.sub(r"\d+", "#", n.rstrip())
            check(sn == so or sn == so + ".#", "bumping changed something else than a number", old=o, new=n, history=ctx.trace)
            lines = nl
            ans = ask(new)
            check(ans["ok"], "RPM rejects the content after bumping", rpm=ans["stderr"], old=o, new=n, history=ctx.trace)
            a, b = old_ans["header"]["RELEASE"], ans["header"]["RELEASE"]
            check(rpm.labelCompare(("0", "1", b), ("0", "1", a)) > 0, "bumped release isn't higher", before=a, after=b, old=o, new=n, history=ctx.trace)
            ctx.count("rpm_compared")
            ctx.count("prerelease_words", re.search("rc|alpha|beta", o) is not None)
            bumps += 1
            ctx.count("bumps")
        else:
            value = r.choice(["1", "2", "0.3", "7.rc1", "10", "%{rel}", "0.%{rel}.beta", "3%{?extra}"])
            version = r.choice(["2", "3.1", "1.2~rc1", "%{rel}.4", "1.2"])
            _, dist, minor = dist_of(cur)
            want = list(lines)
            if op == "set":
                ctx.log("release =", value)
                if r.random() < 0.2:
                    with spec.tags():
                        spec.release = value
                    ctx.count("nested_sets")
                else:
                    spec.release = value
                version = None
            elif op == "both":
                ctx.log("set_version_and_release", version, value)
                spec.set_version_and_release(version, value) if r.random() < 0.5 else spec.set_version_and_release(version=version, release=value)
                ctx.count("set_both")
            else:
                ctx.log("set_version_and_release", version)
                spec.set_version_and_release(version)
                value = "1"
                ctx.count("set_default")
            cur = value + dist
            want[doc.tag] = doc.pre + cur + doc.trail
            if version is not None:
                want[doc.ver] = "Version: " + version
            nl = str(spec).split("\n")[:-1]
            check(nl == want, "setting release changed something else", diff=line_diff(want, nl), history=ctx.trace)
            lines = nl
            check(spec.release == value and spec.raw_release == cur and (version is None or spec.version == version), "release or version doesn't read back as set",
                  set=[version, value], got=[spec.version, spec.release, spec.raw_release], history=ctx.trace)
            ctx.count("read_back")
            ans = ask(str(spec))
            check(ans["ok"], "RPM rejects the content after setting release", rpm=ans["stderr"], history=ctx.trace)
            er = spec.expanded_release
            check(ans["header"]["RELEASE"] == er + (".el9" if dist else ""), "release seen by RPM differs from the one set", rpm=ans["header"]["RELEASE"], expanded=er, dist=dist, history=ctx.trace)
            check(spec.expanded_raw_release == ans["header"]["RELEASE"], "expanded raw release differs from RPM's", got=spec.expanded_raw_release, rpm=ans["header"]["RELEASE"], history=ctx.trace)
            ctx.count("sets")
            ctx.count("dist_kept", bool(dist))
            ctx.count("minorbump_dropped", bool(minor))
        done += 1
        if autosave:
            check(path.read_text() == str(spec), "change wasn't saved", history=ctx.trace)
            ctx.count("autosave")
    for f in doc.feature - {"autorelease", "via_macro", "via_tag"}:
        ctx.count(f)
    ctx.count("repeated_bumps", bumps > 1)
    if done:
        ctx.nontrivial(tuple(ctx.trace))


def _macro_used(self, cur):
    name = re.match(r"^\s*%\w+\s+(\w+)", self.lines[self.macro]).group(1)
    return re.search(r"%\{?\??" + name + r"\b", cur) is not None


Doc.macro_used = _macro_used


# ---------------------------------------------------------------------------------------------------
def f_table(ctx):
    """The logic of rpmdev-bumpspec."""
    from specfile import Specfile

    for old, new in (("1", "2"), ("9%{?dist}", "10%{?dist}"), ("0.1", "0.2"), ("0.1.rc1%{?dist}", "0.2.rc1%{?dist}"), ("1.rc1", "1.rc1.1"), ("1.beta.3", "1.beta.4"), ("1.beta.19", "1.beta.20"), ("2.rc1.99", "2.rc1.100"), ("0.99.rc9", "0.100.rc9"), ("99", "100"), ("%{rel}%{?dist}.39", "%{rel}%{?dist}.40"),
                     ("%{rel}%{?dist}", "%{rel}%{?dist}.1"), ("%{rel}%{?dist}.4", "%{rel}%{?dist}.5"), ("1%{?dist}.2", "2%{?dist}.2"), ("1.5", "2.5")):
        s = Specfile(scratch_spec(ctx, f"%global rel 3\nName: t\nVersion: 1\nRelease: {old}\nSummary: s\nLicense: MIT\n%description\n"))
        s.bump_release()
        check(s.raw_release == new, "release isn't bumped as expected", old=old, got=s.raw_release, want=new)


def f_split(ctx):
    from specfile import Specfile

    for raw, rel, after in (("1%{?dist}", "1", "3%{?dist}"), ("1%dist", "1", "3%dist"), ("1%{dist}.5", "1", "3%{dist}"), ("0.1.rc2%{?dist}.12", "0.1.rc2", "3%{?dist}"), ("4", "4", "3"),
                            ("1%{?distribution}", "1%{?distribution}", "3"), ("%{?dist:1}", "%{?dist:1}", "3")):
        s = Specfile(scratch_spec(ctx, f"%global distribution 6\nName: t\nVersion: 1\nRelease: {raw}\nSummary: s\nLicense: MIT\n%description\n"))
        check(s.release == rel, "wrong release", raw=raw, got=s.release)
        s.release = "3"
        check(s.raw_release == after and s.release == "3", "wrong release after setting it", raw=raw, got=s.raw_release)


def fixed_cases():
    return [(n[2:], f) for n, f in sorted(globals().items()) if n.startswith("f_")]
