"""C20 - EVR, NEVR and NEVRA values order, compare, hash and print like RPM's."""
import itertools
import operator
import re

from vf.core import check

ID = "C20"
LEVEL = "exploration"
CASES = {"quick": 4000, "thorough": 120000}
RULE = """Pools of 8-14 EVR, NEVR and NEVRA objects made of labels with digits, leading zeros, letters, separators, tildes, carets
and non-ASCII characters, near-duplicates that RPM considers equal (other separators, zeros, trailing separators), epochs,
missing releases, different names, architectures and types. All pairs go through the six operators, all triples through
transitivity, pools through sorting, sets and dictionaries; strings of objects are parsed back, and strings that lack a part,
have empty or extra parts or unknown architectures are rejected. Oracle: rpm.labelCompare and an own implementation of RPM's
algorithm. Non-trivial: a pool with both equal and different objects of the same kind; distinct by pool."""
ASSUMPTIONS = ["components are what RPM allows: no dashes or colons in version and release, nothing empty except release", "names of packages parsed without a release contain no dash"]
REQUIRED = ["pairs", "equal_pairs", "triples", "hashes", "sorted", "roundtrips", "malformed", "unknown_arch", "cross_type", "cross_name", "cross_arch", "no_release", "epochs",
            "tilde", "caret", "sets", "nevra_no_release"]

OPS = {"<": operator.lt, "<=": operator.le, "==": operator.eq, "!=": operator.ne, ">=": operator.ge, ">": operator.gt}


def rpmvercmp(a, b):
    """RPM's algorithm of comparing labels."""
    if a == b:
        return 0

    def alnum(c):
        return c.isascii() and c.isalnum()

    i = j = 0
    while i < len(a) or j < len(b):
        while i < len(a) and not alnum(a[i]) and a[i] not in "~^":
            i += 1
        while j < len(b) and not alnum(b[j]) and b[j] not in "~^":
            j += 1
        x, y = a[i:i + 1], b[j:j + 1]
        if x == "~" or y == "~":
            if x != "~":
                return 1
            if y != "~":
                return -1
            i += 1
            j += 1
            continue
        if x == "^" or y == "^":
            if not x:
                return -1
            if not y:
                return 1
            if x != "^":
                return 1
            if y != "^":
                return -1
            i += 1
            j += 1
            continue
        if not x or not y:
            break
        pat = re.compile("[0-9]*" if x.isdigit() else "[a-zA-Z]*")
        s, t = pat.match(a, i).group(), pat.match(b, j).group()
        if not t:
            return 1 if x.isdigit() else -1
        i += len(s)
        j += len(t)
        if x.isdigit():
            s, t = s.lstrip("0"), t.lstrip("0")
            if len(s) != len(t):
                return 1 if len(s) > len(t) else -1
        if s != t:
            return 1 if s > t else -1
    x, y = i < len(a), j < len(b)
    return 0 if not x and not y else 1 if x else -1


def evrcmp(a, b):
    if a[0] != b[0]:
        return 1 if a[0] > b[0] else -1
    return rpmvercmp(a[1], b[1]) or rpmvercmp(a[2], b[2])


def label(r, rel=False):
    out = ""
    for i in range(r.randint(1, 4)):
        if i:
            out += r.choice([".", ".", "", "_", "+", "~", "^", "..", "~~"])
        out += r.choice(["0", "1", "2", "10", "01", "007", "9", "20230101", "a", "b", "rc", "rc1", "1a", "alpha", "A", "el9", "git1234abc", "1000000000000000000000", "é1", "ž"])
    if r.random() < 0.1:
        out += r.choice(["~", "^", ".", "_", "~rc1", "^git", "+"])
    if r.random() < 0.05:
        out = r.choice(["~", "^", "."]) + out
    return out


def twin(r, s):
    """A label that RPM often considers equal."""
    p = r.random()
    if p < 0.3:
        return re.sub(r"[._+]", lambda m: r.choice([".", "_", "+", ".."]), s)
    if p < 0.55:
        return re.sub(r"(?<![0-9])[0-9]+", lambda m: r.choice(["", "0", "00"]) + m.group(), s)
    if p < 0.7:
        return s + r.choice([".", "_", "+"])
    if p < 0.8:
        return re.sub(r"(?<=[0-9])(?=[a-zA-Z])", ".", s)
    if p < 0.9:
        return s
    return s + r.choice(["~", "^", ".1", "a", "~1", "^1"])


def run_case(ctx):
    import rpm
    from specfile.utils import EVR, NEVR, NEVRA

    r = ctx.rng
    base = [(r.choice([0, 0, 0, 1, 2, 10]), label(r), r.choice(["", label(r, True), label(r, True)])) for _ in range(r.randint(2, 5))]
    evrs = list(base)
    while len(evrs) < r.choice([8, 10, 12]):
        e, v, rel = r.choice(base)
        w = r.choice(["v", "r", "e", "x"])
        if w == "v":
            evrs.append((e, twin(r, v), rel))
        elif w == "r":
            evrs.append((e, v, twin(r, rel) if rel else r.choice(["", "0", "1", "~"])))
        elif w == "e":
            evrs.append((e + r.choice([0, 1]), v, rel))
        else:
            evrs.append((e, v, rel))
    kind = r.choice(["EVR", "NEVR", "NEVRA", "mixed"])
    names = r.choice([["foo"], ["foo"], ["foo", "bar"], ["foo-bar", "foo"]])
    arches = r.choice([["x86_64"], ["x86_64", "noarch"], ["aarch64"], ["i686"]])
    pool = []
    for e, v, rel in evrs:
        k = kind if kind != "mixed" else r.choice(["EVR", "NEVR", "NEVRA"])
        n, a = r.choice(names), r.choice(arches)
        kw = {"version": v}
        if e or r.random() < 0.5:
            kw["epoch"] = e
        if rel or k == "NEVRA" or r.random() < 0.5:
            kw["release"] = rel
        if k == "EVR":
            pool.append((EVR(**kw), ("EVR",), (e, v, rel)))
        elif k == "NEVR":
            pool.append((NEVR(name=n, **kw), ("NEVR", n), (e, v, rel)))
        else:
            pool.append((NEVRA(name=n, arch=a, **kw), ("NEVRA", n, a), (e, v, rel)))
        ctx.count("no_release", not rel)
        ctx.count("epochs", bool(e))
        ctx.count("tilde", "~" in v + rel)
        ctx.count("caret", "^" in v + rel)
    ctx.log([str(p[0]) for p in pool])
    eq = ne = 0
    for (x, kx, ex), (y, ky, ey) in itertools.product(pool, pool):
        ctx.count("pairs")
        if kx != ky:
            ctx.count("cross_type" if kx[0] != ky[0] else "cross_name" if kx[1] != ky[1] else "cross_arch")
            check(not (x == y) and x != y, "objects of different type, name or architecture are equal", a=repr(x), b=repr(y))
            for op in ("<", "<=", ">", ">="):
                try:
                    res = OPS[op](x, y)
                except TypeError:
                    continue
                check(False, "objects of different type, name or architecture are ordered", a=repr(x), b=repr(y), op=op, result=res)
            continue
        c = evrcmp(ex, ey)
        lc = rpm.labelCompare((str(ex[0]), ex[1], ex[2]), (str(ey[0]), ey[1], ey[2]))
        check(c == lc, "harness: own implementation differs from RPM's", a=ex, b=ey, own=c, rpm=lc)
        for op, f in OPS.items():
            check(f(x, y) is f(lc, 0), "comparison differs from RPM's", a=repr(x), b=repr(y), op=op, got=f(x, y), rpm=lc)
        if lc == 0:
            check(hash(x) == hash(y), "equal objects have different hashes", a=repr(x), b=repr(y))
            ctx.count("hashes")
            ctx.count("equal_pairs", x is not y)
            eq += x is not y
        else:
            ne += 1
    groups = {}
    for p in pool:
        groups.setdefault(p[1], []).append(p)
    for g in groups.values():
        objs = [p[0] for p in g]
        for a, b, c in itertools.islice(itertools.combinations(objs, 3), 60):
            s = sorted([a, b, c])
            check(s[0] <= s[1] <= s[2] and s[0] <= s[2], "order isn't transitive", objects=[repr(o) for o in s])
            ctx.count("triples")
        shuffled = list(objs)
        r.shuffle(shuffled)
        s = sorted(shuffled)
        check(all(s[i] <= s[i + 1] for i in range(len(s) - 1)), "sorting doesn't order objects", objects=[repr(o) for o in s])
        check(max(objs) == s[-1] and min(objs) == s[0], "extremes differ from the order")
        ctx.count("sorted")
        classes = []
        for o in objs:
            if not any(o == x for x in classes):
                classes.append(o)
        check(len(set(objs)) == len(classes) and len({o: 1 for o in objs}) == len(classes), "set of objects doesn't unify exactly the equal ones", objects=[repr(o) for o in objs])
        ctx.count("sets")
    for x, k, (e, v, rel) in pool:
        roundtrip(ctx, x, k, e, v, rel)
    malformed(ctx)
    if eq and ne:
        ctx.nontrivial(tuple(ctx.trace))


def roundtrip(ctx, x, k, e, v, rel):
    cls = type(x)
    s = str(x)
    want = (f"{k[1]}-" if len(k) > 1 else "") + (f"{e}:" if e else "") + v + (f"-{rel}" if rel else "") + (f".{k[2]}" if len(k) > 2 else "")
    check(s == want, "wrong string form", got=s, want=want)
    if len(k) > 1 and not rel and "-" in k[1]:
        return
    y = cls.from_string(s)
    got = (y.epoch, y.version, y.release) + tuple(getattr(y, a) for a in ("name", "arch") if hasattr(y, a))
    check(type(y) is cls and got == (e, v, rel) + k[1:], "parsing the string form gives other components", string=s, got=got, want=(e, v, rel) + k[1:])
    check(x == y and hash(x) == hash(y) and str(y) == s and not x < y and not y < x, "object parsed from the string form differs", string=s)
    rep = eval(repr(x), {cls.__name__: cls})
    check(rep == x and str(rep) == s, "representation gives another object", repr=repr(x))
    ctx.count("roundtrips")
    ctx.count("nevra_no_release", len(k) == 3 and not rel)


def malformed(ctx):
    from specfile.exceptions import SpecfileException
    from specfile.utils import EVR, NEVR, NEVRA

    r = ctx.rng

    def rejected(f, s):
        try:
            res = f(s)
        except SpecfileException:
            ctx.count("malformed")
            return
        check(False, "malformed string was accepted", string=s, result=repr(res), parser=getattr(f, "__qualname__", str(f)))

    v, rel, n, a = label(r).replace("alpha", "beta"), label(r).replace("alpha", "beta"), r.choice(["foo", "foo-bar"]), r.choice(["x86_64", "noarch", "aarch64", "s390x"])
    rejected(EVR.from_string, r.choice(["", "-", f"-{rel}", f"{v}-", f"{v}-{rel}-1", f"{v}--{rel}", f"{v}-{rel}-"]))
    rejected(NEVR.from_string, r.choice(["", "foo", f"-{v}", f"{v}", "foo-", f"foo-{v}-", f"-{v}-"]))
    unknown = r.choice(["x86_65", "foo", "x86_64 ", "X86_64", "", "noarch2", "x86_64\n", "x86", "any"])
    rejected(NEVRA.from_string, r.choice([f"{n}-{v}-{rel}", f"{n}-{v}-{rel}.", f"{n}-{v}-{rel}.{unknown}", f"foo.{a}", f"-.{a}", "", f"{n}-{v}-.{a}", a, f".{a}"]))
    try:
        NEVRA(name=n, version=v, release=rel, arch=unknown)
    except SpecfileException:
        ctx.count("unknown_arch")
    else:
        check(False, "unknown architecture was accepted", arch=unknown)


# ---------------------------------------------------------------------------------------------------
def f_no_release(ctx):
    from specfile.utils import NEVRA

    a = NEVRA.from_string("foo-1.x86_64")
    b = NEVRA(name="foo", version="1", release="", arch="x86_64")
    check(a == b and hash(a) == hash(b) and a.release == "" and str(a) == "foo-1.x86_64", "NEVRA without release", got=repr(a))
    check(a < NEVRA.from_string("foo-1-0.x86_64"), "NEVRA without release isn't lower")


def f_hash(ctx):
    from specfile.utils import EVR, NEVR, NEVRA

    for x, y in ((EVR(version="1.0", release="1"), EVR(version="1_00", release="01")), (NEVR(name="f", version="1", release=""), NEVR(name="f", version="1.", release="")),
                 (NEVRA(name="f", version="1a", release="1", arch="noarch"), NEVRA(name="f", version="1.a", release="1", arch="noarch"))):
        check(x == y and hash(x) == hash(y) and len({x, y}) == 1, "equal objects have different hashes", a=repr(x), b=repr(y))


def f_newline(ctx):
    from specfile.exceptions import SpecfileException
    from specfile.utils import NEVRA

    for s in ("foo-1-1.x86_64\n", "foo-1.noarch\n"):
        try:
            NEVRA.from_string(s)
        except SpecfileException:
            continue
        check(False, "string with a trailing newline was accepted", string=s)


def fixed_cases():
    return [(n[2:], f) for n, f in sorted(globals().items()) if n.startswith("f_")]
