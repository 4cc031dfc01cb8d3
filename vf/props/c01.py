"""C01 - loading, viewing and saving without edits is byte-for-byte lossless."""
import contextlib
import copy

from vf.core import Skip, check
from vf.util import accepted, corpus, enc, generate, hostile_lines, join, scratch_spec, split

ID = "C01"
LEVEL = "exploration"
CASES = {"quick": 2600, "thorough": 20000}
RULE = """Generated spec files (grammar with recorded structure) and the spec files of the corpus, part of them
put through hostile textual mutations (odd whitespace, control and non-UTF-8 characters, conditions, wrapped
lines, definitions), kept when RPM accepts them; each is opened and walked through a random nest/sequence of
views with every entity read and nothing changed. Non-trivial: at least one view was entered and left, distinct
by content and walk."""
ASSUMPTIONS = ["line terminator is LF (known finding crlf)", "RPM 4.18.2 decides which content is a spec file"]
REQUIRED = ["reloaded_other", "view_tags", "view_macro_definitions", "view_sections", "view_changelog", "view_prep", "view_sources",
            "view_patches", "view_lines", "saves_compared", "nested_views", "no_trailing_newline", "non_utf8",
            "autosave_runs"]


def read_entity(obj):
    """Reads whatever is public about an entity."""
    for name in ("name", "value", "expanded_value", "comments", "valid", "normalized_name", "id", "normalized_id",
                 "is_script", "options", "body", "is_global", "commented_out", "comment_out_style", "header", "content",
                 "evr", "extended_timestamp", "day_of_month_padding", "number", "location", "expanded_location",
                 "filename", "expanded_filename", "remote"):
        try:
            v = getattr(obj, name)
        except AttributeError:
            continue
        except Exception as e:
            from specfile.exceptions import SpecfileException

            if isinstance(e, (SpecfileException, ValueError)):
                continue  # reading may be refused, but must not modify anything
            raise
        str(v)
        if name == "comments":
            v.raw


def pick_view(ctx, spec, depth):
    rng = ctx.rng
    kind = rng.choice(["lines", "macro_definitions", "sections", "tags", "tags", "changelog", "prep", "sources",
                       "patches", "subtags", "sectags", "secchangelog"])
    if kind == "subtags":
        ids = [s.id for s in spec.sections().content if s.normalized_name == "package"]
        sid = rng.choice(ids)
        return "tags", sid, lambda: spec.tags(sid)
    if kind == "sources":
        kw = rng.choice([{}, {"allow_duplicates": True}, {"default_to_implicit_numbering": True}])
        return kind, str(kw), lambda: spec.sources(**kw)
    if kind == "patches":
        kw = rng.choice([{}, {"default_source_number_digits": 4}])
        return kind, str(kw), lambda: spec.patches(**kw)
    return kind, "", lambda: getattr(spec, kind)()


PROPS = ("name version raw_release release summary license epoch url expanded_name expanded_version "
         "expanded_raw_release expanded_release expanded_summary expanded_license expanded_epoch expanded_url "
         "has_autorelease has_autochangelog tainted rpm_spec parsed_sections macros sourcedir path").split()


def walk(ctx, spec, depth=0):
    rng = ctx.rng
    r = rng.random()
    if r < 0.2 or depth > 3:
        p = rng.choice(PROPS)
        ctx.log("  " * depth + "read", p)
        try:
            getattr(spec, p)
        except Exception as e:
            from specfile.exceptions import SpecfileException

            # mutated content may e.g. lack a tag or hold an unparseable value
            if not isinstance(e, (SpecfileException, AttributeError, TypeError, re_error)):
                raise
        ctx.count("properties_read")
        return
    if r < 0.25:
        repr(spec)
        copy.deepcopy(spec)
        ctx.log("  " * depth + "repr/copy")
        return
    kind, arg, make = pick_view(ctx, spec, depth)
    ctx.log("  " * depth + "with", kind, arg)
    if kind in ("sectags", "secchangelog"):
        with spec.sections() as sections:
            want = "package" if kind == "sectags" else "changelog"
            for s in [s for s in sections if s.normalized_name == want][:3]:
                with (spec.tags(s) if want == "package" else spec.changelog(s)) as v:
                    for e in list(v):
                        read_entity(e)
                ctx.count("nested_views")
            for _ in range(rng.randint(0, 1)):
                walk(ctx, spec, depth + 1)
        return
    if rng.random() < 0.12:
        c = make().content
        ctx.count("content_reads")
        return
    with make() as v:
        ctx.count("view_" + kind)
        if depth:
            ctx.count("nested_views")
        if kind == "prep":
            if v is not None:
                for m in v.macros:
                    read_entity(m)
        elif v is not None and kind != "lines":
            for e in list(v):
                read_entity(e)
                ctx.count("entities_read")
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            walk(ctx, spec, depth + 1)


def re_error(*a):
    pass


re_error = ValueError


def lossless(ctx, text, macros, autosave=False, steps=None, accept=True):
    from specfile import Specfile
    from specfile.exceptions import RPMException

    if accept:
        accepted(ctx, text, macros)
    path = scratch_spec(ctx, text)
    before = path.read_bytes()
    try:
        spec = Specfile(path, macros=macros, autosave=autosave)
    except RPMException:
        raise Skip("rejected in a full parse")
    ctx.log("content:", repr(text[:2000]))
    check(str(spec) == text, "content in memory differs from the file right after opening", file=text, memory=str(spec))
    for _ in range(steps or ctx.rng.randint(1, 6)):
        walk(ctx, spec)
        check(str(spec) == text, "viewing without editing changed the content", file=text, memory=str(spec),
              walk="\n".join(ctx.trace[-12:]))
        ctx.count("contents_compared")
        if autosave:
            check(path.read_bytes() == before, "viewing with autosave changed the file", file=text,
                  now=path.read_bytes().decode("utf8", "replace"))
    if autosave:
        ctx.count("autosave_runs")
    how = ctx.rng.random()
    if how < 0.6:
        spec.save()
    else:
        with spec:
            pass
    check(path.read_bytes() == before, "saving without edits changed the file", file=text,
          now=path.read_bytes().decode("utf8", "replace"))
    ctx.count("saves_compared")
    if how < 0.3:
        spec.reload()
        check(str(spec) == text, "reload without edits changed the content", file=text, memory=str(spec))
        if how < 0.15:
            # the file is replaced by something else
            now = text[:-1] if text.endswith("\n") else text + "\n"
            if how < 0.07:
                now = "# " + now.replace("\n", "\n\n", 1)
            path.write_bytes(now.encode("utf8", "surrogateescape"))
            spec.reload()
            check(str(spec) == now, "content after reload differs from the file", file=now, memory=str(spec))
            spec.save()
            check(path.read_bytes() == now.encode("utf8", "surrogateescape"), "saving after reload changed the file", file=now)
            ctx.count("reloaded_other")
    if not text.endswith("\n"):
        ctx.count("no_trailing_newline")
    if any("\udc80" <= c <= "\udcff" for c in text):
        ctx.count("non_utf8")
    ctx.nontrivial(text, ctx.trace[1:])


def run_case(ctx):
    rng = ctx.rng
    macros = []
    if rng.random() < 0.7:
        doc = generate(rng)
        lines, nl, macros = doc.lines(), doc.trailing_newline, list(doc.macros)
    else:
        lines, nl = split(corpus(ctx).read_text(encoding="utf8"))
    if rng.random() < 0.5:
        base = lines
        for _ in range(6):
            lines = hostile_lines(rng, base)
            if ctx.oracle.ask(join(lines, nl), macros)["ok"]:
                break
        else:
            lines = base
        if rng.random() < 0.3:
            nl = not nl
    if not nl and lines and lines[-1] == "":
        nl = True
    lossless(ctx, join(lines, nl), macros, autosave=rng.random() < 0.25)


MIN = "Name: a\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n"


def fixed_cases():
    def mk(text):
        def run(ctx):
            for _ in range(3):
                lossless(ctx, text, [], steps=8)
        return run

    return [
        ("prep-wrapped-ordinary", mk(MIN + "%description\n%prep\n%{?fedora:echo a}\n%{!?x:  echo b}  \n%setup -c -T\n")),
        ("prep-untokenizable", mk(MIN + "%description\n%prep\n# it's %setup or not\necho \"%patch0\n%setup -c -T\n")),
        ("multiline-trailing-ws", mk(MIN + "Provides: %{!?x:foo \t\n}\nProvides: %{lua: \nprint('x')\t\n}  \n%description\n")),
        ("line-separators", mk(MIN + "# a\x0bb\x0cc\x1cd\x1de\x1ef\x85g\u2028h\u2029i\n%description\nx\x0by\u2028z\n%changelog\n* Thu Jan 04 2024 A\x0bB <a@b> - 1-1\n- q\x85w\n")),
        ("section-trailing-ws", mk(MIN + "%description \t\ntext\n%prep  \n%changelog  \n* Thu Jan 04 2024 A <a@b> - 1-1\n- q\n")),
        ("no-trailing-newline", mk(MIN + "%description\ntext")),
        ("trailing-blank-lines", mk(MIN + "%description\ntext\n\n\n \n")),
        ("non-utf8", mk(MIN + "# \udcff\n%if 1\n# \udcfe\n%endif\n%global nb \udce9\n%description\ntext\n%build\necho \udce9\n")),
        ("options-literal", mk(MIN + "Source0: a.tar.gz\nPatch0: p.patch\n%description\n%prep\n%setup -q -n 'a b' -n \"c\\\"d\" \n%patch0 -p1 -b '.x y'\n%patch -P 0 -b \"\"\n")),
        ("sourcelist-conds", mk(MIN + "%description\n%sourcelist\n%if 1\na\n  \n%else\nb\n%endif\n# c\n\n%patchlist\n\n# x\np\n#y\n")),
        ("md-styles", mk(MIN + "%dnl %global a 1\n#global b 2\n# %%global c 3\n#%%define d 4\n  %global  e\t5  \n%global f() %{1}\n%global g \\\n  x\\\n  y\n%global h %{expand:\n}\n%description\n")),
    ]


def _crlf(ctx):
    from specfile import Specfile

    p = scratch_spec(ctx, MIN.replace("\n", "\r\n") + "%description\r\ntext\r\n")
    before = p.read_bytes()
    s = Specfile(p)
    s.save()
    return p.read_bytes() != before


def findings():
    return [("crlf", _crlf)]
