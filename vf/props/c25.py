"""C25 - representations of objects are faithful."""
import ast
import pathlib
import re

from vf.core import Skip, check
from vf.gen import generate
from vf.util import scratch_spec

ID = "C25"
LEVEL = "exploration"
CASES = {"quick": 800, "thorough": 15000}
RULE = """Objects of every kind the library represents: specs and their settings, sections, options, tags, comments, macro definitions, %prep macros,
changelog entries, sources, patches, list entries and their containers out of generated spec files, nodes of parsed values, tokens, EVRs, NEVRs, NEVRAs and
macros; part of them edited to hold hostile text (quotes, backslashes, brackets, angle brackets, texts that look like representations, newlines, control,
non-ASCII and undecodable characters, very long and empty strings). The representation is evaluated in a namespace with the library's
names (those of enumeration members in angle brackets replaced by the members) and the result has to be an equal object of the same type with the same representation and text.
Lines of representations are not longer than necessary. Generated expressions are also reformatted directly and their syntax trees compared. Non-trivial: at least
20 objects, or one expression with nested items; distinct by representation."""
ASSUMPTIONS = ["names of enumeration members don't appear in string literals followed by a colon and the number of the member"]
REQUIRED = ["objects", "multiline", "hostile", "expressions", "Specfile", "SpecParser", "Sections", "Section", "Options", "Token", "Tags", "Tag", "Comments", "Comment", "MacroDefinitions", "MacroDefinition",
            "Prep", "PrepMacros", "AutosetupMacro", "PatchMacro", "SetupMacro", "AutopatchMacro", "Changelog", "ChangelogEntry", "Sources", "TagSource", "Patches", "TagPatch",
            "ListSource", "ListPatch", "Sourcelist", "SourcelistEntry", "EVR", "NEVR", "NEVRA", "Macro", "StringLiteral", "ShellExpansion", "ExpressionExpansion", "MacroSubstitution",
            "EnclosedMacroSubstitution", "ConditionalMacroExpansion", "BuiltinMacro"]

HOSTILE = ["'", '"', "'\"", "\\", "\\'", '\\"', "<", ">", "<x>", "'<x: 1>'", "<CommentOutStyle.DNL>", "[", ")", "(a, b)", "Tag('a')", "\t", "\x01", "é", "\u2028", "\udc80", "a" * 100, "", "None", ",", ", ", "{",
           "}", "%{x}", "{x}", "'''", "#", "\x7f", "🐢", "0", "a=b", " ", "  x  ", "\\n", "x\\"]


def namespace():
    import specfile
    from specfile import changelog, macro_definitions, macros, options, prep, sections, sourcelist, sources, spec_parser, tags, utils, value_parser

    ns = {"PosixPath": pathlib.PosixPath, "Specfile": specfile.Specfile}
    for m in (changelog, macro_definitions, macros, options, prep, sections, sourcelist, sources, spec_parser, tags, utils, value_parser):
        ns.update({k: v for k, v in vars(m).items() if isinstance(v, type) and v.__module__.startswith("specfile")})
    return ns


ENUM = re.compile(r"<((?:CommentOutStyle|MacroLevel|TokenType)\.\w+): -?\d+>")


def verify(ctx, obj, ns):
    text = repr(obj)
    kind = type(obj).__name__
    ctx.count(kind)
    ctx.count("objects")
    ctx.count("multiline", "\n" in text)
    expr = ENUM.sub(r"\1", text)
    try:
        tree = ast.parse(expr, mode="eval")
        got = eval(compile(tree, "repr", "eval"), ns)
    except Exception as e:
        check(False, "representation can't be evaluated", kind=kind, repr=text, error=repr(e))
    check(type(got) is type(obj) and got == obj and not got != obj, "representation evaluates to something else", kind=kind, repr=text, got=repr(got))
    check(repr(got) == text, "representation of the evaluated object differs", kind=kind, repr=text, got=repr(got))
    if kind not in ("Specfile", "SpecParser"):
        for f in ("get_raw_section_data", "get_raw_data"):
            if hasattr(type(obj), f):
                check(getattr(obj, f)() == getattr(got, f)(), "evaluated representation has another content", kind=kind, repr=text)
        if type(obj).__str__ is not object.__str__ and type(obj).__str__ is not type(obj).__repr__:
            check(str(got) == str(obj), "evaluated representation has another text", kind=kind, repr=text)
    if "\n" in text:
        # a part is on several lines only if it wouldn't fit one
        check(len(" ".join(x.strip() for x in text.split("\n"))) > 80, "representation is on several lines although it would fit one", kind=kind, repr=text)
    else:
        check(len(text) <= 80 or not re.match(r"[\w]+\(.+\)$", text), "representation is too long", kind=kind, repr=text)
    return text


def hostile(r):
    return "".join(r.choice(HOSTILE + ["a", "b"]) for _ in range(r.choice([1, 1, 2, 3])))


def mutate(ctx, objs):
    from specfile.tags import Comment

    r = ctx.rng
    for o in r.sample(objs, min(len(objs), 8)):
        k = type(o).__name__
        h = hostile(r)
        if k == "Tag":
            setattr(o, r.choice(["value", "_separator", "_prefix"]), h)
        elif k == "Comment":
            setattr(o, r.choice(["text", "prefix"]), h)
        elif k == "Comments":
            o.data.append(Comment(h))
        elif k == "MacroDefinition":
            setattr(o, r.choice(["name", "body", "_prefix"]), h)
        elif k == "Section":
            o.data.append(h)
        elif k == "ChangelogEntry":
            o.header = h
            o.content.append(h)
        elif k == "SourcelistEntry":
            o.location = h
        else:
            continue
        ctx.count("hostile")


def objects(spec):
    from specfile.sourcelist import Sourcelist

    out = []
    with spec.sections() as x:
        out.append(x)
        out += list(x)
        out += [s.options for s in x]
        out += [t for s in x for t in getattr(s.options, "_tokens", ())]  # if there are still objects like that
        for s in x:
            if s.name in ("sourcelist", "patchlist"):
                sl = Sourcelist.parse(s, context=spec)
                out += [sl] + list(sl)
    with spec.tags() as x:
        out.append(x)
        out += list(x)
        out += [t.comments for t in x]
        out += [c for t in x for c in t.comments]
    with spec.macro_definitions() as x:
        out.append(x)
        out += list(x)
    with spec.prep() as x:
        if x is not None:
            out += [x, x.macros] + list(x.macros)
    with spec.changelog() as x:
        if x is not None:
            out.append(x)
            out += list(x)
    for v in (spec.sources, spec.patches):
        with v() as x:
            out.append(x)
            out += list(x)
    return out


def values(ctx):
    """Nodes, EVRs and macros."""
    from specfile.macros import Macro, MacroLevel
    from specfile.utils import EVR, NEVR, NEVRA
    from specfile.value_parser import ValueParser

    r = ctx.rng
    out = []
    for v in ("a%{b}%c", "%{?x:y%{z}}%(echo %{a})", "%[1 + 2]%{!?a}", "%{upper:x}%{?b:%{?c:'d'}}", "%{lua:print('\"')}", "é%{a b 'c'}%%"):
        if r.random() < 0.7:
            out += list(ValueParser.flatten(ValueParser.parse(v))) + ValueParser.parse(v)
    h = [hostile(r).replace("\udc80", "") for _ in range(4)]
    out += [EVR(epoch=r.randint(0, 3), version=h[0] or "1", release=h[1]), NEVR(name=h[2], epoch=r.randint(0, 3), version=h[0] or "1", release=h[1]),
            NEVRA(name=h[2], version=h[0] or "1", release=h[1], arch=r.choice(["x86_64", "noarch", "i686"]))]
    out.append(Macro(h[0], r.choice([None, h[3]]), h[1], r.choice(list(MacroLevel)), r.random() < 0.5))
    return out


def expression(r, depth=0):
    k = r.randrange(9 if depth < 4 else 3)
    if k < 3:
        return r.choice([repr(hostile(r)), repr(hostile(r)), str(r.randint(0, 10 ** r.choice([1, 5, 30]))), "None", "True", "b'x\\x00'", "1.5"])
    n = r.choice([0, 1, 1, 2, 3, 5])
    if k == 3:
        return "(" + "".join(expression(r, depth + 1) + ", " for _ in range(n)) + ")"
    if k == 4:
        return "[" + ", ".join(expression(r, depth + 1) for _ in range(n)) + "]"
    if k == 5:
        return "{" + ",".join(f"{expression(r, 9)}:{expression(r, depth + 1)}" for _ in range(n)) + "}"
    args = [expression(r, depth + 1) for _ in range(n)] + [f"k{i}={expression(r, depth + 1)}" for i in range(r.choice([0, 0, 1, 2]))]
    return r.choice(["f", "Name", "x_1"]) + "(" + ", ".join(args) + ")"


def tree(e, **info):
    try:
        return ast.dump(ast.parse(e, mode="eval"))
    except SyntaxError as x:
        check(False, "reformatted expression is invalid", got=e, error=repr(x), **info)


def expression_case(ctx):
    from specfile.formatter import format_expression

    r = ctx.rng
    e = expression(r)
    limit = r.choice([80, 80, 20, 1, 200])
    ctx.log(repr(e), limit)
    got = format_expression(e, limit)
    check(tree(got, expression=e) == ast.dump(ast.parse(e, mode="eval")), "reformatted expression means something else", expression=e, got=got)
    check(format_expression(got, limit) == got, "reformatting isn't stable", got=got, again=format_expression(got, limit))
    ctx.count("expressions")
    # objects without an evaluable representation
    obj = f"<{r.choice(['rpm.spec object at 0x7f', 'E.A: 1', 'x y', '<z>', 'a'])}>"
    e2 = f"f({repr(hostile(r)).replace(obj, '')}, {obj}, k={obj})"
    got2 = format_expression(e2, limit)
    n2 = re.sub(r"\s+|,(?=\n)", "", got2)
    check(re.sub(r"\s+", "", obj) in n2 and n2.count(re.sub(r"\s+", "", obj)) == 2, "object without representation got lost", expression=e2, got=got2)
    want = ast.dump(ast.parse(e2.replace(obj, "OBJ"), mode="eval"))
    check(tree(got2.replace(obj, "OBJ"), expression=e2) == want, "reformatted expression means something else", expression=e2, got=got2)
    if len(e) > 20:
        ctx.nontrivial(e)


def run_case(ctx):
    from specfile import Specfile
    from specfile.exceptions import RPMException

    r = ctx.rng
    if r.random() < 0.5:
        return expression_case(ctx)
    ns = namespace()
    text = generate(r).text()
    try:
        spec = Specfile(scratch_spec(ctx, text), sourcedir=r.choice([None, ctx.tmp, str(ctx.tmp)]), autosave=r.random() < 0.3, force_parse=r.random() < 0.3,
                        macros=r.choice([None, [], [("a", "b'"), ("c", None)], [("x", "y" * 70)]]))
    except RPMException:
        raise Skip("not accepted by RPM")
    reprs = [verify(ctx, spec, ns)] + [verify(ctx, x, ns) for x in [getattr(spec, "_parser", None)] if x is not None]
    objs = objects(spec)
    if r.random() < 0.5:
        mutate(ctx, objs)
    args = (spec.path, spec.sourcedir, spec.autosave, spec.macros, spec.force_parse)

    def same(*a):
        # entities refer to their spec, there is no need to open it once more for each of them
        check(a == args, "representation of the context is different", got=a, want=args)
        return spec

    ns["Specfile"] = same
    for o in objs + values(ctx):
        reprs.append(verify(ctx, o, ns))
    if len(reprs) >= 20:
        ctx.nontrivial(reprs)


def f_placeholder(ctx):
    from specfile.macro_definitions import CommentOutStyle, MacroDefinition

    ns = namespace()
    for t in ("<CommentOutStyle.DNL: 1>", "'<CommentOutStyle.DNL: 1>'", "x '<CommentOutStyle.HASH: 2>'"):
        md = MacroDefinition("m", t, True, False, CommentOutStyle.DNL, ("", " ", " ", ""))
        text = repr(md)
        i = text.rindex("<CommentOutStyle.DNL: 1>")
        expr = text[:i] + "CommentOutStyle.DNL" + text[i + len("<CommentOutStyle.DNL: 1>"):]
        try:
            got = eval(expr, ns)
        except SyntaxError:
            got = None
        check(got == md, "representation is wrong if a value looks like that of an enumeration member", repr=text)


def fixed_cases():
    return [(n[2:], f) for n, f in sorted(globals().items()) if n.startswith("f_")]
