"""C21 - value parsing is lossless and finds every macro reference."""
import re

from vf.core import Skip, check

ID = "C21"
LEVEL = "exploration"
CASES = {"quick": 60000, "thorough": 600000}
RULE = """Two kinds of values. Structured ones are trees of literals (escaped and lone percent signs, brackets, backslashes,
non-ASCII characters, newlines), references with and without braces, prefixes of ? and !, arguments, nested conditional
expansions, built-ins, shell and expression expansions; the parser has to give back the tree. Random ones are strings over an alphabet
of macro syntax, compared with an own parser written after RPM's expandMacro() and, without shell, with RPM itself:
every name of the alphabet is defined, undefined or empty, expansions of nodes have to concatenate to the expansion of the
value, literals expand to themselves, conditional nodes to their bodies or to nothing, and a value is rejected exactly when a
macro on some level that is parsed doesn't end. Nodes of a slightly changed value have to be
equal to those of the original exactly if kinds, names, arguments and bodies are. Some values go through has_autorelease and contains_autochangelog.
Non-trivial: a value with at least two references, or a rejected one; distinct by value."""
ASSUMPTIONS = ["names are ASCII, the name of a braced reference ends with a space or a colon, a body follows only names without prefix or with ? in it"]
REQUIRED = ["structured", "random", "rejected", "nested", "lone_percent", "escaped_percent", "expanded", "conditional_true", "conditional_false", "builtin", "shell",
            "expression", "args", "users", "autorelease_yes", "autorelease_no", "escaped_brace", "variants_equal", "variants_different"]

NAMES = ["a", "b", "version", "x_1", "_p", "dist", "A9"]


# -- own parser, after expandMacro() of RPM ----------------------------------------------------------
class Unterminated(Exception):
    pass


def matchchar(s, i, pl, pr):
    lvl = 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            i += 2
            continue
        if c == pr:
            lvl -= 1
            if lvl <= 0:
                return i
        elif c == pl:
            lvl += 1
        i += 1
    return None


def ref_parse(s):
    out = []
    lit = ""
    i = 0

    def flush():
        nonlocal lit
        if lit:
            out.append(("lit", lit))
        lit = ""

    while i < len(s):
        c = s[i]
        if c != "%":
            lit += c
            i += 1
            continue
        n = s[i + 1:i + 2]
        if n == "%":
            lit += "%%"
            i += 2
            continue
        if n and n in "({[":
            e = matchchar(s, i + 1, n, {"(": ")", "{": "}", "[": "]"}[n])
            if e is None:
                raise Unterminated
            body = s[i + 2:e]
            flush()
            if n == "(":
                out.append(("shell", body))
            elif n == "[":
                out.append(("expr", body))
            else:
                m = re.match(r"([?!]*)([^ :]*)", body)
                if body[m.end():m.end() + 1] == ":":
                    rest = body[m.end() + 1:]
                    if "?" in m[1]:
                        out.append(("cond", m[1], m[2], ref_parse(rest)))
                    else:
                        out.append(("builtin", m[1] + m[2], rest))
                else:
                    out.append(("enclosed", m[1], m[2], body[m.end():].split()))
            i = e + 1
            continue
        m = re.compile(r"[?!]*-?[A-Za-z0-9_]*(\*\*|[*#])?").match(s, i + 1)
        if m.end() == i + 1:
            lit += "%"
            i += 1
            continue
        flush()
        p = re.match(r"[?!]*", m[0])[0]
        out.append(("plain", p, m[0][len(p):]))
        i = m.end()
    flush()
    return out


def describe(node):
    """What a node of the library says about itself, in terms of the reference."""
    from specfile import value_parser as vp

    if type(node) is vp.StringLiteral:
        return ("lit", node.value)
    if type(node) is vp.ShellExpansion:
        return ("shell", node.body)
    if type(node) is vp.ExpressionExpansion:
        return ("expr", node.body)
    if type(node) is vp.MacroSubstitution:
        return ("plain", node.prefix, node.name)
    if type(node) is vp.EnclosedMacroSubstitution:
        return ("enclosed", node.prefix, node.name, list(node.args))
    if type(node) is vp.ConditionalMacroExpansion:
        return ("cond", node.prefix, node.name, [describe(n) for n in node.body])
    if type(node) is vp.BuiltinMacro:
        return ("builtin", node.name, node.body)
    check(False, "unknown kind of node", node=repr(node))


def flat(tree):
    for t in tree:
        if t[0] == "cond":
            yield from flat(t[3])
        else:
            yield t


def refs(tree):
    n = 0
    for t in tree:
        if t[0] == "cond":
            n += 1 + refs(t[3])
        elif t[0] != "lit":
            n += 1
    return n


# -- structured values -------------------------------------------------------------------------------
def balanced(r, depth=0, quotes=True):
    """Text with balanced braces of all kinds, with escapes."""
    out = ""
    for _ in range(r.randint(0, 3)):
        p = r.random()
        if p < 0.5:
            out += r.choice(["echo", "1", " ", "+", "foo bar", "é", "\n", "a:b", "?", "!", "$HOME", "|"])
        elif p < 0.65 and depth < 2:
            o = r.choice(["()", "{}", "[]"])
            out += o[0] + balanced(r, depth + 1) + o[1]
        elif p < 0.75:
            out += r.choice(["\\}", "\\{", "\\)", "\\(", "\\]", "\\[", "\\\\", "\\n"])
        elif p < 0.9:
            out += "%" + r.choice(["{a}", "a ", "{?b:1}", "%", "(echo)"])
        else:
            out += "%%"
    return out


def literal(r, inside):
    """Text with no reference; `inside` the body of an enclosing conditional expansion, where braces have to match."""
    out = ""
    for _ in range(r.randint(1, 4)):
        p = r.random()
        if p < 0.45:
            out += r.choice(["1", ".", "foo", "-", "/", " ", "é", "1.2", "~rc", "@", "#", ",", ":", "?", "!", "$", "'", '"', "\n", "\t", "žlutý"])
        elif p < 0.6:
            out += "%%" + r.choice(["", "a", "{a}", "{?a:b}", " ", "(ls)", "[1]", "%%", "é"])
        elif p < 0.7:
            out += "%" + r.choice([" ", ".", "/", ",", "é", "&", "$", "~", "="])
        elif p < 0.8:
            out += r.choice(["{}", "()", "[]", "{a}", "{?a:x}", "(a)"])
        elif p < 0.9:
            out += r.choice(["\\{", "\\}", "\\\\", "\\)"])
        elif not inside:
            out += r.choice(["{", "}", ")", "(", "]", "["])
    return out


def tree(r, depth=0):
    """List of (source, expected description)."""
    out = []
    inside = depth > 0
    for _ in range(r.choice([1, 2, 2, 3, 4]) if not depth else r.randint(0, 3)):
        p = r.random()
        prev_plain = bool(out) and out[-1][1][0] == "plain"
        pre = r.choice(["", "", "", "?", "!?", "?!", "!", "??", "!!?", "?!!", "!?!"])
        n = r.choice(NAMES)
        if p < 0.3:
            s = literal(r, inside)
            if prev_plain and re.match(r"[A-Za-z0-9_*#]", s):
                s = r.choice([".", "-", "/"]) + s
            if not s:
                continue
            if out and out[-1][1][0] == "lit":
                out[-1] = (out[-1][0] + s, ("lit", out[-1][1][1] + s))
            else:
                out.append((s, ("lit", s)))
        elif p < 0.45:
            if r.random() < 0.15:
                # arguments and options of parametric macros
                n = r.choice(["1", "12", "*", "**", "#", "-f", "-f*", "-x", "0"])
            out.append((f"%{pre}{n}", ("plain", pre, n)))
        elif p < 0.6:
            args = [r.choice(["x", "-n", "3", "é", "a:b", "%%"]) for _ in range(r.choice([0, 0, 1, 2]))]
            sep = r.choice([" ", " ", "  "])
            if not args and r.random() < 0.15:
                n = r.choice(["1", "*", "**", "#", "-f", "-f*"])
            out.append(("%{" + pre + n + "".join(sep + a for a in args) + ("}" if not args else r.choice(["}", "}", " }"])), ("enclosed", pre, n, args)))
        elif p < 0.8 and depth < 4:
            pre = r.choice(["?", "?", "!?", "?!", "??", "!!?", "!!!?", "!?!", "?!!"])
            sub = tree(r, depth + 1)
            src = "".join(x[0] for x in sub)
            out.append(("%{" + pre + n + ":" + src + "}", ("cond", pre, n, [x[1] for x in sub])))
        elif p < 0.88:
            b = balanced(r)
            name = r.choice(["lua", "quote", "load", "expand", "upper", "a", "url2path", "S"])
            out.append(("%{" + name + ":" + b + "}", ("builtin", name, b)))
        elif p < 0.94:
            b = balanced(r)
            out.append(("%(" + b + ")", ("shell", b)))
        else:
            b = balanced(r)
            out.append(("%[" + b + "]", ("expr", b)))
    # literals that end with a lone percent sign or a backslash would merge with what follows
    return out


PAIRS = {"(": ")", "{": "}", "[": "]"}


def brackets_ok(s):
    """Whether every kind of brackets in s is balanced, in the sense of matchchar()."""
    for o, c in PAIRS.items():
        lvl = 0
        i = 0
        while i < len(s):
            if s[i] == "\\":
                i += 2
                continue
            lvl += (s[i] == o) - (s[i] == c)
            if lvl < 0:
                return False
            i += 1
        if lvl or i > len(s):
            return False
    return True


def ambiguous(nodes):
    """Whether the rendered source may be read in another way than it was generated."""
    for k, (s, d) in enumerate(nodes):
        nxt = nodes[k + 1][0] if k + 1 < len(nodes) else ""
        if d[0] == "lit" and len(s) - len(s.rstrip("%")) & 1 and nxt:
            return True
        if d[0] == "lit" and re.search(r"(?<!%)(?:%%)*%[A-Za-z0-9_?!*#({\[-]", s.replace("%%", "\0\0")):
            return True
        if d[0] == "plain" and re.match(r"[A-Za-z0-9_*#]", nxt):
            return True
    return False


def split_source(nodes):
    return "".join(s for s, _ in nodes)


# -- checks ------------------------------------------------------------------------------------------
def compare(ctx, value, want):
    from specfile.value_parser import ValueParser

    nodes = ValueParser.parse(value)
    check("".join(str(n) for n in nodes) == value, "nodes don't concatenate to the value", value=value, nodes=repr(nodes))
    got = [describe(n) for n in nodes]
    check(got == want, "value was parsed differently", value=value, got=got, want=want)
    check([describe(n) for n in ValueParser.flatten(nodes)] == list(flat(want)), "flattened nodes are different", value=value)
    check(ValueParser.parse(value) == nodes, "nodes of the same value aren't equal", value=value)
    for n in nodes:
        again = ValueParser.parse(str(n))
        check(describe(n)[0] == "lit" or again == [n], "a node parsed on its own is different", value=value, node=repr(n), again=repr(again))
    variant(ctx, value, nodes, got)
    for t in want:
        ctx.count("nested", t[0] == "cond" and any(x[0] != "lit" for x in t[3]))
        ctx.count({"builtin": "builtin", "shell": "shell", "expr": "expression"}.get(t[0], "other_nodes"))
        ctx.count("args", t[0] == "enclosed" and bool(t[3]))
        if t[0] == "lit":
            ctx.count("escaped_percent", "%%" in t[1])
            ctx.count("lone_percent", "%" in t[1].replace("%%", ""))
    ctx.count("escaped_brace", bool(re.search(r"\\[{}]", value)))
    return nodes


def variant(ctx, value, nodes, got):
    """Nodes of a slightly different value are equal exactly if they describe themselves in the same way."""
    from specfile.exceptions import SpecfileException
    from specfile.value_parser import ValueParser

    r = ctx.rng
    if not value:
        return
    p = r.random()
    k = r.randrange(len(value))
    if p < 0.5:
        other = value[:k] + r.choice("ab1?!x. y") + value[k + 1:]
    elif p < 0.65:
        other = value[:k] + value[k + 1:]
    elif p < 0.75:
        other = value[:k] + r.choice("ab1?! :") + value[k:]
    elif p < 0.9:
        a, b = r.choice([("()", "[]"), ("[]", "()"), ("()", "{}"), ("{}", "()"), ("{}", "[]")])
        other = value.translate({ord(a[0]): b[0], ord(a[1]): b[1]})
    else:
        n = r.choice(["lua", "quote", "load", "expand", "upper", "a", "S"])
        other = value.replace(n + ":", r.choice(["lua", "load", "b"]) + ":")
    try:
        others = ValueParser.parse(other)
    except SpecfileException:
        return
    d = [describe(n) for n in others]
    check((others == nodes) is (d == got) and (nodes == others) is (d == got), "equality of nodes doesn't follow from their kinds, names and bodies", value=value, other=other, nodes=repr(nodes), others=repr(others))
    for x, y, dx, dy in zip(nodes, others, got, d):
        check((x == y) is (dx == dy) and (x != y) is (dx != dy) and (y == x) is (dx == dy), "equality of nodes doesn't follow from their kinds, names and bodies",
              value=value, other=other, nodes=[repr(x), repr(y)])
    ctx.count("variants_equal" if d == got else "variants_different")


def rejected(ctx, value):
    from specfile.exceptions import SpecfileException
    from specfile.value_parser import ValueParser

    try:
        nodes = ValueParser.parse(value)
    except SpecfileException:
        ctx.count("rejected")
        return
    check(False, "value with an unterminated macro was accepted", value=value, nodes=repr(nodes))


MACROS = {"a": "<A>", "b": "", "dist": ".el", "ab": "[AB]"}


def with_rpm(ctx, value, nodes, toplevel_ok):
    """Expands the value and its nodes with RPM."""
    import rpm

    def ex(s):
        try:
            return rpm.expandMacro(s)
        except rpm.error:
            return None

    for n in ("a", "b", "ab", "ba", "dist", "1", "a1", "1a", "aa", "bb"):
        rpm.delMacro(n)
    for n, b in MACROS.items():
        rpm.addMacro(n, b)
    try:
        whole = ex(value)
        if nodes is None:
            check(whole is None, "value was rejected but RPM expands it", value=value, expansion=whole)
            return
        parts = [ex(str(n)) for n in nodes]
        if whole is None or None in parts:
            check(whole is None and None in parts, "RPM accepts the value but not its nodes, or the other way round", value=value, whole=whole, parts=parts)
            ctx.count("expansion_errors")
            return
        check("".join(parts) == whole, "expansions of nodes don't make the expansion of the value", value=value, parts=parts, whole=whole)
        ctx.count("expanded")

        def deep(ns):
            for n in ns:
                d = describe(n)
                if d[0] == "lit":
                    check(ex(n.value) == n.value.replace("%%", "%"), "RPM finds a macro in a literal", value=value, literal=n.value, expansion=ex(n.value))
                elif d[0] == "cond":
                    defined = d[2] in MACROS
                    # (RPM expands the macro itself if the body is empty)
                    if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", d[2]) and n.body:
                        neg = d[1].count("!") % 2 == 1
                        body = "".join(str(x) for x in n.body)
                        want = ex(body) if defined != neg else ""
                        check(ex(str(n)) == want, "conditional node doesn't expand as its body", value=value, node=str(n), got=ex(str(n)), want=want)
                        ctx.count("conditional_true" if defined != neg else "conditional_false")
                    deep(n.body)

        deep(nodes)
    finally:
        for n in MACROS:
            rpm.delMacro(n)


# names that are syntax of parametric macros, or prefixes RPM treats in a special way
ODD = re.compile(r"%[?!]*+[-*#]|%\{[?!]*+[-*#]|%[?!]++(?![A-Za-z0-9_?!{(\[])|%\{![^?}:]*:|%\{[?!]*+[^}: ?!]*[?!(\[{\\%]|%\{[?!]*+:|%\{[?!]*+ |%\{[?!]*+\}|[a-z0-9_][*#]")


def run_case(ctx):
    from specfile.exceptions import SpecfileException
    from specfile.value_parser import ValueParser

    r = ctx.rng
    p = r.random()
    if p < 0.4:
        nodes = tree(r)
        if ambiguous(nodes) or any(d[0] == "lit" and s.endswith("\\") for s, d in nodes):
            raise Skip
        value = split_source(nodes)
        want = [d for _, d in nodes]
        try:
            ref = ref_parse(value)
        except Unterminated:
            raise Skip
        # generated trees can be ambiguous in other ways (brackets split between siblings)
        if ref != want:
            raise Skip
        ctx.log(value)
        compare(ctx, value, want)
        ctx.count("structured")
        if refs(want) >= 2:
            ctx.nontrivial(value)
        if r.random() < 0.3 and want:
            # cut the value inside of a macro
            k = r.randrange(len(value))
            cut = value[:k]
            try:
                w = ref_parse(cut)
            except Unterminated:
                rejected(ctx, cut)
            else:
                compare(ctx, cut, w)
    elif p < 0.97:
        alphabet = r.choice(["%{}a?:b ", "%{}()[]?!:ab \\é1", "%%%{}?a:b.", "%{}:a\\", "%ab?!.1 %{}", "%{}?:aé()"])
        value = "".join(r.choice(alphabet) for _ in range(r.randint(1, r.choice([6, 12, 24, 40]))))
        if r.random() < 0.3:
            value = r.choice(["%{?a:", "%{", "%{!?b:", "%{?a:%{?b:"]) + value + r.choice(["}", "", "}}"])
        ctx.log(value)
        try:
            want = ref_parse(value)
        except Unterminated:
            want = None
        if ODD.search(value):
            # kinds and names aren't decided here, but the value still has to be split without loss
            try:
                got = ValueParser.parse(value)
            except SpecfileException:
                check(want is None, "well-formed value was rejected", value=value)
            else:
                check(want is not None, "value with an unterminated macro was accepted", value=value, nodes=repr(got))
                check("".join(str(n) for n in got) == value, "nodes don't concatenate to the value", value=value, nodes=repr(got))
            ctx.count("odd")
            return
        nodes = None
        if want is None:
            rejected(ctx, value)
        else:
            nodes = compare(ctx, value, want)
        ctx.count("random")
        if want is None or refs(want) >= 2:
            ctx.nontrivial(value)
        if "%(" not in value and "%[" not in value and not (nodes is None):
            with_rpm(ctx, value, nodes, True)
        elif nodes is None and "%(" not in value and "%[" not in value and "?" not in value:
            with_rpm(ctx, value, None, True)
    else:
        users(ctx)


SPEC = """%global autorelease 1
%global autochangelog %{nil}
%global a 1
Name: test
Version: 0.1
Release: {release}
Summary: Test
License: MIT

%description
Test.

%changelog
{changelog}
"""


def users(ctx):
    from specfile import Specfile

    r = ctx.rng

    def ref(n):
        p = r.random()
        yes = ["%" + n, "%{" + n + "}", "%{?" + n + "}", "%?" + n, "%{" + n + " -n}", "%{?a:%{" + n + "}}", "%{?a:1%{?b:%" + n + "}}", "100%%%" + n, "1% %" + n if n != "autorelease" else "1.%" + n]
        no = ["1%%" + n, "1%%{" + n + "}", "1" + n, "%{?a:1%%" + n + "}", "%{?" + n + ":1}", "1%{?" + n + "2}", "1%{!?" + n + ":%{a}}", "1%?" + n + "_x", "%{?a:1}", "1." + n]
        return (r.choice(yes), True) if p < 0.5 else (r.choice(no), False)

    rel, want_rel = ref("autorelease")
    lines = []
    want_cl = False
    for _ in range(r.randint(1, 3)):
        p = r.random()
        if p < 0.2:
            lines.append("# %autochangelog" if r.random() < 0.5 else "  #%{autochangelog}")
        elif p < 0.3:
            lines.append("%{unterminated")
        elif p < 0.8:
            s, w = ref("autochangelog")
            lines.append(s)
            want_cl |= w
        else:
            lines.append(r.choice(["- 100%", "", "text", "50% done"]))
    path = ctx.tmp / "t.spec"
    path.write_text(SPEC.replace("{release}", rel).replace("{changelog}", "Text\n"))
    ctx.log(rel, lines)
    spec = Specfile(path)
    check(spec.has_autorelease is want_rel, "has_autorelease is wrong", release=rel)
    ctx.count("autorelease_yes" if want_rel else "autorelease_no")
    with spec.sections() as sections:
        sec = sections.changelog
        sec.data = list(lines)
        got = Specfile.contains_autochangelog(sec)
        check(got is want_cl, "contains_autochangelog is wrong", lines=lines, got=got)
        sec.data = ["Text"]
    ctx.count("users")
    ctx.nontrivial((rel, tuple(lines)))


# -- regressions -------------------------------------------------------------------------------------
def f_lone_percent(ctx):
    for v in ("100%", "5% of %{a}", "% ", "%", "a%é", "%%%", "%{?a:50%}"):
        compare(ctx, v, ref_parse(v))


def f_non_ascii(ctx):
    compare(ctx, "%aé", [("plain", "", "a"), ("lit", "é")])
    compare(ctx, "%a²", [("plain", "", "a"), ("lit", "²")])


def f_node_equality(ctx):
    from specfile.value_parser import ValueParser

    vs = ["%(1)", "%[1]", "%{1}", "%1", "1", "%{?1}", "%?1", "%{!1}", "%{a:1}", "%{b:1}", "%{a:2}", "%{?a:1}", "%{!?a:1}", "%{?b:1}", "%{?a:2}", "%{?a:%{b}}", "%{?a:%b}", "%{a 1}", "%{a 2}", "%(2)", "%[2]"]
    for v in vs:
        for w in vs:
            check((ValueParser.parse(v) == ValueParser.parse(w)) is (v == w), "equality of nodes doesn't follow from their kinds, names and bodies", values=[v, w])


def f_users(ctx):
    for _ in range(10):
        users(ctx)


def fixed_cases():
    return [(n[2:], f) for n, f in sorted(globals().items()) if n.startswith("f_")]
