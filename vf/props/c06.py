"""C06 - the changelog behaves as an ordered list of entries."""
import re

from vf.core import check
from vf.gen import DAYS, MONTHS, WORDS
from vf.util import check_lines, generate, open_doc, split

ID = "C06"
LEVEL = "exploration"
CASES = {"quick": 4000, "thorough": 26000}
RULE = """Grammar-generated spec files with a changelog (date-only and extended timestamps, three day paddings, EVRs in
all supported notations, entries without EVR, comments, odd blank lines); EVR, timestamp style and padding of every
entry are compared with what was written, filters with random bounds are compared with a direct evaluation using RPM's
label comparison, and a history of edits (header, content, deletion by index, negative index and slice, insertion,
append, replacement) is compared with a list model of the lines after every step, after the view and after
saving and reopening. Non-trivial: at least one edit or filter of a non-empty changelog; distinct by content and
history."""
ASSUMPTIONS = ["the blank line following a deleted entry is deleted with it", "entries have non-blank content"]
REQUIRED = ["evrs_checked", "paddings_checked", "extended_checked", "filters", "filters_proper_subset", "filters_empty",
            "filters_without_evr", "op_header", "op_content", "op_del", "op_del_negative", "op_del_slice", "op_insert",
            "op_append", "op_replace", "reopened", "no_changelog"]


class E:
    def __init__(self, header, content, follow):
        self.header, self.content, self.follow = header, list(content), follow

    def solid(self):
        return [self.header] + self.content


def match(model, pred, lines, what, ops):
    """Lines have to be the predecessor and the entries, newest first; None stands for any number of blank lines."""
    exact = list(pred[0])
    i = 0

    def take(want):
        nonlocal i
        got = lines[i:i + len(want)]
        if got != want:
            full = list(pred[0])
            for e in reversed(model):
                full += e.solid() + (["<blank lines>"] if e.follow is None else e.follow)
            check_lines(lines, full, what, ops=ops)
            check(False, what, lines=lines)
        i += len(want)

    def blanks():
        nonlocal i
        out = []
        while i < len(lines) and not lines[i].strip():
            out.append(lines[i])
            i += 1
        return out

    take(exact)
    if pred[1]:
        pred[0] = exact + blanks()
        pred[1] = False
    for e in reversed(model):
        take(e.solid())
        if e.follow is None:
            e.follow = blanks()
        else:
            take(e.follow)
    check(i == len(lines), f"{what}: extra lines", lines=lines[i:], ops=ops)


def label(s):
    """(epoch, version, release) as RPM understands it; malformed or missing EVR counts as version 0."""
    m = re.fullmatch(r"(?:(\d+):)?([^-]+)(?:-([^-]+))?", s or "", re.DOTALL)
    if not m:
        return "0", "0", ""
    return str(int(m[1] or 0)), m[2], m[3] or ""


def new_entry(ctx, n):
    rng = ctx.rng
    day = rng.randint(1, 28)
    evr = f"{rng.randint(0, 12)}.{n}-{rng.randint(1, 3)}"
    h = f"* {rng.choice(DAYS)} {rng.choice(MONTHS)} {day:02d} 20{rng.randint(10, 30)} Who <w@h.o> - {evr}"
    return h, [f"- change {n} " + rng.choice(WORDS)] + [f"  more {k}" for k in range(rng.randint(0, 2))]


def run_case(ctx):
    import rpm

    from specfile import Specfile
    from specfile.changelog import ChangelogEntry
    from specfile.exceptions import RPMException

    rng = ctx.rng
    doc = generate(rng, changelog=0.95, mds=0.3, extra_tags=2, sections=rng.random() < 0.3, subpackages=1)
    spec, path, _ = open_doc(ctx, doc, autosave=rng.random() < 0.1)
    sec = next((s for s in doc.secs if s.name == "changelog"), None)
    if sec is None:
        with spec.changelog() as cl:
            check(cl is None, "changelog of a spec without one")
        ctx.count("no_changelog")
        return
    items = [i for i in sec.items if i.kind == "centry"]
    pred = [[ln for i in sec.items if i.kind != "centry" for ln in i.lines], False]
    model = [E(i.header, i.content, list(i.follow)) for i in reversed(items)]
    truth = list(reversed(items))
    base = [s.lines() for s in doc.secs]
    at = doc.secs.index(sec)

    def whole():
        return base[:at] + [[sec.header]] + [cur] + base[at + 1:]

    ops = 0
    with spec.changelog() as cl:
        match(model, pred, cl.get_raw_section_data(), "changelog", [])
        for e, t in zip(cl, truth):
            check(e.evr == t.evr, "EVR of an entry", header=e.header, got=e.evr, want=t.evr)
            ctx.count("evrs_checked")
            check(e.extended_timestamp == t.ext, "timestamp style", header=e.header, got=e.extended_timestamp)
            ctx.count("extended_checked", t.ext)
            want = t.pad if t.day.day < 10 else ""
            check(e.day_of_month_padding == want, "day padding", header=e.header, got=e.day_of_month_padding, want=want)
            ctx.count("paddings_checked", t.day.day < 10)
        # filters
        for _ in range(rng.choice([0, 2, 5])):
            def bound():
                k = rng.random()
                if k < 0.2:
                    return None
                if k < 0.6 and truth:
                    t = rng.choice(truth)
                    return t.evr or "9.9-9"
                return f"{rng.choice(['', '', '1:', '0:'])}{rng.randint(7, 10)}.{rng.randint(5, 10)}" + \
                    rng.choice(["", f"-{rng.randint(0, 10)}", "~rc1-5", "-5.fc38", "^git-1"])

            a, b = bound(), bound()
            lab = [label(t.evr) for t in truth]
            lo = 0 if a is None else next((i for i, x in enumerate(lab) if rpm.labelCompare(x, label(a)) >= 0), len(lab))
            hi = len(lab) if b is None else next(
                (i + 1 for i in range(len(lab) - 1, -1, -1) if rpm.labelCompare(lab[i], label(b)) <= 0), 0)
            want = [t.header for t in truth[lo:hi]]
            ctx.log("filter", a, b)
            got = cl.filter(since=a, until=b)
            check([e.header for e in got] == want, "filtered changelog", since=a, until=b, got=[e.header for e in got],
                  want=want, all=[t.header for t in truth])
            check(type(got) is type(cl) and len(cl) == len(truth), "filter has to return a new changelog")
            check([e.content for e in got] == [list(t.content) for t in truth[lo:hi]], "content of filtered entries")
            ctx.count("filters")
            ctx.count("filters_proper_subset", 0 < len(want) < len(truth))
            ctx.count("filters_empty", not want)
            ctx.count("filters_without_evr", any(t.evr is None for t in truth))
            ops += bool(truth)
        match(model, pred, cl.get_raw_section_data(), "changelog after filtering", ctx.trace[1:])
    cur = sec.body()
    check_lines(split(str(spec))[0], [ln for b in whole() for ln in b], "content after read-only view")
    for view in range(rng.randint(0, 3)):
        with spec.changelog() as cl:
            for _ in range(rng.choice([1, 2, 4])):
                check(len(cl) == len(model), "number of entries", got=len(cl), want=len(model))
                ops += 1
                c = rng.randrange(9)
                i = rng.randrange(len(model)) if model else 0
                if not model:
                    c = rng.choice([5, 6])
                if c == 0:
                    h = model[i].header.replace("<", "<new.") + " "
                    ctx.log("header", i, repr(h))
                    cl[i].header = h
                    model[i].header = h
                    ctx.count("op_header")
                elif c == 1:
                    how = rng.randrange(3)
                    ctx.log("content", i, how)
                    if how == 0:
                        new = ["- rewritten"] + ["", "- after blank"] * rng.randint(0, 1)
                        cl[i].content = list(new)
                        model[i].content = new
                    elif how == 1:
                        cl[i].content.append(f"- appended {ops}")
                        model[i].content.append(f"- appended {ops}")
                    else:
                        cl[i].content.insert(0, f"- first {ops}")
                        model[i].content.insert(0, f"- first {ops}")
                    ctx.count("op_content")
                elif c in (2, 3, 4):
                    if c == 2:
                        idx = [i]
                        ctx.log("del", i)
                        del cl[i]
                        ctx.count("op_del")
                    elif c == 3:
                        idx = [i]
                        ctx.log("del", i - len(model))
                        del cl[i - len(model)]
                        ctx.count("op_del_negative")
                    else:
                        j = i + rng.randint(1, 2)
                        sl = rng.choice([slice(i, j), slice(i - len(model), None), slice(None, i), slice(None, None, 2),
                                         slice(i, None, -1)])
                        idx = sorted(range(len(model))[sl])
                        ctx.log("del", sl)
                        del cl[sl]
                        ctx.count("op_del_slice")
                    for k in reversed(idx):
                        # the entry goes away with (at most) one blank line that follows it
                        rest = model[k].follow[1:]
                        del model[k]
                        if k < len(model):
                            model[k].follow = model[k].follow + rest
                        else:
                            pred[0] = pred[0] + rest
                elif c in (5, 6):
                    h, content = new_entry(ctx, ops)
                    follow = [""] * rng.randint(0, 2)
                    e = ChangelogEntry(h, content, follow)
                    if c == 5:
                        k = rng.randint(0, len(model))
                        ctx.log("insert", k, repr(h))
                        cl.insert(k, e)
                        model.insert(k, E(h, content, list(follow)))
                        ctx.count("op_insert")
                    else:
                        ctx.log("append", repr(h))
                        cl.append(e)
                        model.append(E(h, content, list(follow)))
                        ctx.count("op_append")
                elif c == 7:
                    h, content = new_entry(ctx, ops)
                    ctx.log("replace", i, repr(h))
                    cl[i] = ChangelogEntry(h, content, [""])
                    model[i] = E(h, content, [""])
                    ctx.count("op_replace")
                else:
                    got = cl[i:]
                    check([e.header for e in got] == [m.header for m in model[i:]], "slice of a changelog")
                    check(cl[-1].header == model[-1].header, "newest entry")
                match(model, pred, cl.get_raw_section_data(), "changelog lines", ctx.trace[1:])
            cur = cl.get_raw_section_data()
        text = split(str(spec) + ("" if doc.trailing_newline else "\n"))[0]
        check_lines(text, [ln for b in whole() for ln in b], "content after leaving the view", ops=ctx.trace[1:])
        with spec.changelog() as cl:
            check([(e.header, e.content) for e in cl] == [(m.header, m.content) for m in model], "entries read back",
                  got=[e.header for e in cl], want=[m.header for m in model], ops=ctx.trace[1:])
    if ops:
        ctx.nontrivial(ctx.trace)
    spec.save()
    try:
        again = Specfile(path, macros=list(doc.macros))
    except RPMException:
        return
    got = [(e.header, e.content) for e in again.changelog().content]
    if doc.trailing_newline or str(spec).split("\n")[-1]:
        check(got == [(m.header, m.content) for m in model], "entries after reopening", got=got)
        ctx.count("reopened")


MIN = "Name: a\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n\n%description\nd\n\n%changelog\n"
CL = ("* Thu Jun 10 2021 B <b@c> - 2-1\n- two\n\n* Wed May 05 2021 A <a@b>\n- no evr\n\n* Tue May 04 12:00:00 UTC 2021 A <a@b> - 1-1\n"
      "- one\n")


def _spec(ctx):
    from specfile import Specfile

    p = ctx.tmp / "t.spec"
    p.write_text(MIN + CL)
    return Specfile(p)


def _del(ctx):
    spec = _spec(ctx)
    with spec.changelog() as cl:
        del cl[-1]
    check([e.evr for e in spec.changelog().content] == ["1-1", None], "deleted the wrong entry")


def _filter(ctx):
    cl = _spec(ctx).changelog().content
    check([e.evr for e in cl.filter(since="2-1")] == ["2-1"], "filter with an entry without EVR")


def _ext(ctx):
    cl = _spec(ctx).changelog().content
    check([e.extended_timestamp for e in cl] == [True, False, False], "extended timestamps")


def _slice(ctx):
    spec = _spec(ctx)
    with spec.changelog() as cl:
        del cl[::-2]
    check([e.evr for e in spec.changelog().content] == [None], "deleted wrong entries")


def fixed_cases():
    return [("del-negative", _del), ("filter-without-evr", _filter), ("extended-padded", _ext), ("del-slice", _slice)]
