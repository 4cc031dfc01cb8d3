"""C02 - views expose exactly what is written in the spec."""
import re

from vf.core import Skip, Violation, check
from vf.util import check_lines, generate, join, open_doc

ID = "C02"
LEVEL = "exploration"
CASES = {"quick": 1500, "thorough": 25000}
RULE = """Grammar-generated spec files accepted by RPM whose structure (sections, tags with comments, macro
definitions, changelog entries, prep macros, list entries) is written down by the generator while it emits the text;
every view is compared entity by entity with that record, including lookups by name and position. Non-trivial: at
least five entities compared; distinct by content."""
ASSUMPTIONS = ["no tag-like line inside a multi-line macro body and no prep macro inside a comment (known findings)",
               "RPM 4.18.2 decides which content is a spec file"]
REQUIRED = ["scripts", "scripts_with_options", "sections", "tags", "tag_comments", "macro_definitions", "commented_out_definitions", "changelog_entries",
            "prep_macros", "patch_numbers", "source_entries", "list_entries", "lookups", "lookups_ambiguous",
            "position_lookups", "wrapped_tags", "multiline_values", "lookups_of_unused", "position_misses"]


def expect_list(what, got, want, text):
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation(f"{what} differ from what is written (at {i})\n  reported: {got[i:i + 2]!r}\n"
                        f"  written: {want[i:i + 2]!r}\n  counts: {len(got)} vs. {len(want)}\n{text}")


def want_section(s):
    if s.header is None:
        return ("package", "", s.body())
    name = s.header[1:].split()[0]
    if getattr(s, "trick", None):
        return (name, "", [s.trick + s.header[len(s.header.rstrip()):]] + s.body())
    return (name, s.optstr, s.body())


def first(items, pred):
    """What a lookup has to find: first valid match, otherwise the first match."""
    m = [i for i, x in enumerate(items) if pred(x)]
    v = [i for i in m if items[i].valid]
    return (v or m or [None])[0], m


# sections whose content RPM runs as a script
SCRIPTS = set("prep generate_buildrequires conf build install check clean pre post preun postun pretrans posttrans preuntrans "
              "postuntrans verifyscript trigger triggerin triggerun triggerpostun triggerprein filetrigger filetriggerin "
              "filetriggerun filetriggerpostun transfiletrigger transfiletriggerin transfiletriggerun "
              "transfiletriggerpostun".split())


def check_sections(ctx, spec, doc, text):
    with spec.sections() as sections:
        got = [(s.name, str(s.options), list(s)) for s in sections]
        expect_list("sections", got, [want_section(s) for s in doc.secs], text)
        ctx.count("sections", len(got))
        for s, w in zip(list(sections), doc.secs):
            sid = w.id if not getattr(w, "trick", None) else w.name
            check(s.normalized_name == w.name, "normalized section name", got=s.normalized_name, want=w.name)
            check(s.is_script == (w.name in SCRIPTS), "whether the section is a script", got=s.is_script, header=w.header)
            ctx.count("scripts", w.name in SCRIPTS)
            ctx.count("scripts_with_options", w.name in SCRIPTS and bool(w.optstr))
            if w.header is None or " " * 2 in w.header or "\t" in w.header:
                continue  # the ID keeps the literal delimiter
            check(s.id.lower() == sid.lower(), "section id", got=s.id, want=sid)
            i = next(j for j, x in enumerate(doc.secs) if (x.id if not getattr(x, "trick", None) else x.name) == sid
                     and not ("  " in (x.header or "") or "\t" in (x.header or "")) or
                     j == 0 and sid == "package")
            for key in (sid, sid.upper() if not w.optstr else sid):
                check(key in sections, "section lookup failed", id=key)
                check(sections.get(key) is sections[i], "section lookup found another section", id=key)
                check(getattr(sections, key) is sections[i], "section lookup found another section", id=key)
            ctx.count("lookups")
        check("nonexistent" not in sections, "nonexistent section found")


def tag_tuple(t):
    return (t.name, t.value, [str(c) for c in t.comments], [c.text for c in t.comments])


def texts(lines):
    """Texts of comments: what follows the hash and whitespace around it."""
    return [ln.lstrip()[1:].lstrip() for ln in lines]


def check_tags(ctx, spec, doc, text, lookups):
    for si, s in enumerate(doc.secs):
        if s.name != "package":
            continue
        with spec.sections() as sections, spec.tags(sections[si]) as tags:
            want = [i for i in s.items if i.kind == "tag"]
            expect_list("tags", [tag_tuple(t) for t in tags],
                        [(i.name, i.value, doc.attached(i), texts(doc.attached(i))) for i in want], text)
            ctx.count("tags", len(want))
            ctx.count("tag_comments", sum(len(i.comments) for i in want))
            ctx.count("wrapped_tags", sum(i.wrapped for i in want))
            ctx.count("multiline_values", sum("\n" in i.value for i in want))
            pos = {}
            n = 0
            for it in s.items:
                if it.kind == "tag":
                    pos[id(it)] = n + len(it.comments)
                n += len(it.lines)
            for t, w in zip(list(tags), want):
                check(t.get_position(tags) == pos[id(w)], "position of a tag", tag=w.name, got=t.get_position(tags),
                      want=pos[id(w)], spec=text)
                check(tags.get(w.name, position=pos[id(w)]) is t, "lookup by position", tag=w.name, spec=text)
                check(t.comments.raw == texts(doc.attached(w)), "comment texts", tag=w.name)
                check(t.normalized_name == w.name.capitalize(), "normalized tag name", got=t.normalized_name)
                ctx.count("position_lookups")
            if not lookups:
                continue
            for name in {i.name.lower() for i in want}:
                idx, m = first(want, lambda x: x.name.lower() == name)
                key = ctx.rng.choice([name, name.upper(), name.capitalize(), want[idx].name])
                check(key in tags, "tag not found by name", name=key)
                check(tags.get(key) is tags[idx], "tag lookup prefers another tag", name=key, spec=text,
                      got=tag_tuple(tags.get(key)))
                check(getattr(tags, key) is tags[idx], "tag lookup by attribute finds another tag", name=key)
                ctx.count("lookups")
                if len({want[i].valid for i in m}) > 1:
                    ctx.count("lookups_ambiguous")
            check("prefixes" not in tags, "nonexistent tag found")
            try:
                tags.get("Prefixes")
            except ValueError:
                pass
            else:
                raise Violation("get() of a nonexistent tag succeeded")


STYLE = {"DNL": "DNL", "HASH": "HASH", "OTHER": "OTHER"}


def check_mds(ctx, spec, doc, text, lookups):
    with spec.macro_definitions() as mds:
        want = doc.items("md")
        got = [(m.name, m.body, m.is_global, m.commented_out, m.comment_out_style.name if m.commented_out else "") for m in mds]
        expect_list("macro definitions", got,
                    [(i.name, i.body, i.is_global, i.commented, i.style if i.commented else "") for i in want], text)
        ctx.count("macro_definitions", len(want))
        ctx.count("commented_out_definitions", sum(i.commented for i in want))
        for m, w in zip(list(mds), want):
            check(m.get_position(mds) == doc.position(w), "position of a macro definition", name=w.name,
                  got=m.get_position(mds), want=doc.position(w), spec=text)
            check(mds.get(w.name, position=doc.position(w)) is m, "lookup by position", name=w.name)
            check(w.name in mds, "macro definition not found", name=w.name)
            ctx.count("position_lookups")
        if lookups:
            for name in {i.name for i in want}:
                idx, m = first(want, lambda x: x.name == name)
                check(mds.get(name) is mds[idx], "definition lookup prefers another one", name=name, spec=text)
                check(getattr(mds, name) is mds[idx], "definition lookup prefers another one", name=name)
                ctx.count("lookups")
                if len({want[i].valid for i in m}) > 1:
                    ctx.count("lookups_ambiguous")
        check("no_such_macro" not in mds and "M1" not in mds, "nonexistent definition found")


def check_changelog(ctx, spec, doc, text):
    secs = [s for s in doc.secs if s.name == "changelog"]
    with spec.changelog() as cl:
        if not secs:
            check(cl is None, "changelog reported though there is none", spec=text)
            return
        want = [i for i in secs[0].items if i.kind == "centry"]
        expect_list("changelog entries", [(e.header, list(e.content)) for e in cl],
                    [(i.header, i.content) for i in reversed(want)], text)
        for e, i in zip(cl, reversed(want)):
            check(e.evr == i.evr, "EVR of a changelog entry", header=i.header, got=e.evr, want=i.evr)
        ctx.count("changelog_entries", len(want))


def check_prep(ctx, spec, doc, text):
    secs = [s for s in doc.secs if s.name == "prep"]
    with spec.prep() as prep:
        if not secs:
            check(prep is None, "%prep reported though there is none", spec=text)
            return
        want = [i for i in secs[0].items if i.kind == "prepmacro"]
        expect_list("prep macros", [(m.name, str(m.options), type(m).CANONICAL_NAME) for m in prep.macros],
                    [(i.name, i.opts, "%patch" if i.name.startswith("%patch") else i.name) for i in want], text)
        for m, i in zip(prep.macros, want):
            if i.number is not None:
                check(m.number == i.number, "number of a patch macro", line=i.lines, got=m.number, want=i.number)
                ctx.count("patch_numbers")
        for n in ("%setup", "%autosetup", "%autopatch", "%patch"):
            present = any(i.name.startswith(n) if n == "%patch" else i.name == n for i in want)
            check((n in prep) == present, "membership of a prep macro", name=n, want=present, spec=text)
        for n in {i.name for i in want}:
            idx = next(j for j, i in enumerate(want) if i.name == n)
            check(getattr(prep, n[1:]) is prep.macros[idx], "prep macro lookup", name=n)
            ctx.count("lookups")
        ctx.count("prep_macros", len(want))


def check_sources(ctx, spec, doc, text):
    for patch in (False, True):
        items = [i for s in doc.secs[:1] for i in s.items if i.kind == "tag" and getattr(i, "source", False) and i.patch == patch]
        listed = [i for s in doc.secs if s.name == ("patchlist" if patch else "sourcelist") for i in s.items if i.kind == "slentry"]
        with (spec.patches() if patch else spec.sources()) as sources:
            expect_list("patches" if patch else "sources",
                        [(s.location, [str(c) for c in s.comments]) for s in sources],
                        [(i.value, doc.attached(i)) for i in items] +
                        [(i.location, doc.attached(i)) for i in listed], text)
            check(len(sources) == len(items) + len(listed), "number of sources")
            for s, i in zip(sources, items):
                check(s.number == i.number, "source number", name=i.name, got=s.number, want=i.number, spec=text)
            for i in items + listed:
                check((i.value if i.kind == "tag" else i.location) in sources, "membership of a source")
        ctx.count("source_entries", len(items))
        ctx.count("list_entries", len(listed))


def compare(ctx, spec, doc, text, lookups):
    todo = [lambda: check_sections(ctx, spec, doc, text), lambda: check_tags(ctx, spec, doc, text, lookups),
            lambda: check_mds(ctx, spec, doc, text, lookups), lambda: check_changelog(ctx, spec, doc, text),
            lambda: check_prep(ctx, spec, doc, text), lambda: check_sources(ctx, spec, doc, text)]
    ctx.rng.shuffle(todo)
    for f in todo:
        f()


def duplicates(ctx):
    """Tags and macro definitions that exist several times, in branches that are used or not: lookup by name and by
    position (of any line) in a file known line by line."""
    rng = ctx.rng
    lines, valid = ["Name: a", "Version: 1", "Release: 1", "Summary: s", "License: MIT"], [True] * 5
    stack = []
    sure = {"url": 0, "epoch": 0}
    for _ in range(rng.randint(4, 16)):
        k = rng.random()
        on = all(stack)
        if k < 0.25 and len(stack) < 3:
            c = rng.random() < 0.4
            lines.append(rng.choice(["%if 1", "%ifnarch nosuch"] if c else ["%if 0", "%ifarch nosuch", "%if 0%{?nosuch}"]))
            valid.append(on)
            stack.append(c)
        elif k < 0.4 and stack:
            stack.pop()
            lines.append("%endif")
            valid.append(all(stack))
        elif k < 0.75:
            lines.append(f"%{rng.choice(['global', 'define'])} {rng.choice(['dup', 'dup', 'dap'])} b{len(lines)}")
            valid.append(on)
        elif k < 0.9:
            t = rng.choice(["URL", "Epoch"])
            if on:
                if sure[t.lower()]:
                    continue
                sure[t.lower()] = 1
            lines.append(f"{t if rng.random() < 0.7 else t.lower()}: {len(lines)}")
            valid.append(on)
        else:
            lines.append(rng.choice(["", "# c", "# URL: 0"]))
            valid.append(on)
    while stack:
        stack.pop()
        lines.append("%endif")
        valid.append(all(stack))
    text = join(lines + ["%description", "d"])
    ctx.log(text)
    ans = ctx.oracle.ask(text, [], ctx.tmp / "d")
    check(ans["ok"], "harness: RPM rejects the file", error=ans["stderr"], text=text)
    spec = _spec(ctx, text)

    def probe(view, names, pos):
        with view as v:
            for name in names:
                at = [i for i, ln in enumerate(lines) if re.fullmatch(pos % name, ln, re.I)]
                if not at:
                    check(name not in v, "nonexistent item found", name=name, spec=text)
                    continue
                want = next((i for i in at if valid[i]), at[0])
                i = v.find(name)
                check(v[i].get_position(v) == want, "lookup finds another item", name=name, line=v[i].get_position(v), want=want, spec=text)
                check(v.get(name) is v[i] and getattr(v, name) is v[i], "lookups differ", name=name)
                ctx.count("lookups_of_unused", not valid[want] and len(at) > 1)
                for p in range(len(lines) + 2):
                    try:
                        j = v.find(name, position=p)
                    except ValueError:
                        check(p not in at, "item not found at its position", name=name, position=p, spec=text)
                        ctx.count("position_misses")
                        continue
                    check(p in at and v[j].get_position(v) == p, "item found at another position", name=name, position=p,
                          found=v[j].get_position(v), spec=text)

    probe(spec.macro_definitions(), ["dup", "dap", "nosuch"], r"%%(?:global|define) %s .*")
    probe(spec.tags(), ["url", "epoch", "version", "group"], r"%s: .*")
    ctx.nontrivial(text)


def run_case(ctx):
    if ctx.rng.random() < 0.06:
        return duplicates(ctx)
    lookups = ctx.rng.random() < 0.7
    doc = generate(ctx.rng, **({"sec_conds": 0} if lookups else {}))
    spec, path, _ = open_doc(ctx, doc)
    text = doc.text()
    for w, p in (("name", "name"), ("version", "version"), ("raw_release", "release"), ("summary", "summary"),
                 ("license", "license"), ("url", "url"), ("epoch", "epoch")):
        if not lookups:
            break
        items = [i for i in doc.secs[0].items if i.kind == "tag"]
        idx, _ = first(items, lambda x: x.name.lower() == p)
        want = None if idx is None else items[idx].value
        check(getattr(spec, w) == want, f"property {w}", got=getattr(spec, w), want=want, spec=text)
    compare(ctx, spec, doc, text, lookups)
    n = len(doc.items("tag")) + len(doc.items("md")) + len(doc.items("centry"))
    if n >= 5:
        ctx.nontrivial(text)


MIN = "Name: a\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n"


def _spec(ctx, text):
    from specfile import Specfile

    p = ctx.tmp / "t.spec"
    p.write_text(text)
    return Specfile(p)


def _trailing_ws_section(ctx):
    spec = _spec(ctx, MIN + "%description \t\ntext\n%prep  \n%setup -c -T\n%changelog \n* Thu Jan 04 2024 A <a@b> - 1-1\n- q\n")
    ids = [s.id for s in spec.sections().content]
    check(ids == ["package", "description", "prep", "changelog"], "section ids", ids=ids)
    check(len(spec.changelog().content) == 1, "changelog entries")
    check([m.name for m in spec.prep().content.macros] == ["%setup"], "prep macros")


def _dup_positions(ctx):
    spec = _spec(ctx, MIN + "Provides: x\nProvides: x\nProvides: %{!?q:y\n}\nProvides: x\n%global a 1\n%global a 1\n%description\n")
    with spec.tags() as tags:
        pos = [t.get_position(tags) for t in tags][5:]
        check(pos == [5, 6, 7, 9], "positions of equal and multi-line tags", got=pos)
    with spec.macro_definitions() as mds:
        pos = [m.get_position(mds) for m in mds]
        check(pos == [10, 11], "positions of equal definitions", got=pos)


def _prep_comment(ctx):
    spec = _spec(ctx, MIN + "%description\n%prep\n# don't %setup \"x\necho 'x\n%setup -c -T -n 'a b'\n")
    with spec.prep() as prep:
        check([(m.name, str(m.options)) for m in prep.macros] == [("%setup", "-c -T -n 'a b'")], "prep macros",
              got=[(m.name, str(m.options)) for m in prep.macros])


def fixed_cases():
    return [("section-trailing-ws", _trailing_ws_section), ("duplicate-positions", _dup_positions),
            ("prep-untokenizable", _prep_comment)]


def _phantom(ctx):
    spec = _spec(ctx, MIN + "%global body %{expand:\nRequires: foo\n}\n%description\n")
    return any(t.name == "Requires" for t in spec.tags().content)


def _prep_in_comment(ctx):
    spec = _spec(ctx, MIN + "Patch0: x.patch\n%description\n%prep\n# %%patch0 -p1\n")
    return bool(spec.prep().content.macros)


def findings():
    return [("tag-in-macro-body", _phantom), ("prep-macro-in-comment", _prep_in_comment)]
