"""C11 - adding and removing sources or patches keeps the rest intact and valid."""
import re

from vf.core import check
from vf.props.c10 import G
from vf.util import accepted, check_lines, join, line_diff, open_doc, split

ID = "C11"
LEVEL = "exploration"
CASES = {"quick": 2000, "thorough": 12000}
RULE = """Grammar-generated spec files with tags (explicit, implicit, mixed, zero-padded, unordered numbers) and list
sections; a history of operations on the sources and patches views (insert, append, extend, insert_numbered, add_patch,
assignment, removal by index, slice, location and number, rejected additions, with all view options) is applied in
parallel to a block model of the file. After every operation the locations, comments and numbers are compared with a
list model, all lines are aligned with the blocks (only the new line and renumbered names may differ), and RPM is asked
for the sources of the resulting content. Non-trivial: at least one operation that changes something; distinct by
content and history."""
ASSUMPTIONS = ["as for C10", "blank lines next to a removed tag may be merged"]
REQUIRED = ["op_insert", "op_append", "op_extend", "op_insert_numbered", "op_add_patch", "op_set", "op_set_slice", "op_del_index",
            "op_del_slice", "op_remove", "op_remove_numbered", "op_remove_missing", "op_pop", "op_duplicate_rejected",
            "op_duplicate_allowed", "op_number_rejected", "renumbered", "rpm_compared", "into_list", "into_tags", "first_entry",
            "comments_kept", "op_comment", "comment_of_added", "explicit_number_kept", "multi_op_views", "op_insert_negative", "op_clear",
            "implicit_added", "padded_added", "op_remove_many", "op_location", "branch_op", "branch_insert", "branch_insert_unused"]


class G11(G):
    """Adds unordered, mixed and duplicate entries."""

    def source_tags(self, doc):
        if self.p(0.55):
            return super().source_tags(doc)
        out = []
        for prefix, patch in (("Source", False), ("Patch", True)):
            used, last, locs = set(), -1, []
            pad = self.pick([0, 0, 0, 2])
            for _ in range(self.r.choice([0, 1, 2, 3, 4, 5])):
                if self.p(0.6):
                    num, nm = self.r.randint(0, 7), None
                    nm = f"{prefix}{num:0{pad}}"
                else:
                    num, nm = last + 1, prefix
                if num in used:
                    continue
                used.add(num)
                last = max(last, num)
                loc = self.location(patch) if not locs or self.p(0.85) else self.pick(locs)
                locs.append(loc)
                out.append(self.tag(nm, loc, plain=True, source=True, patch=patch, number=num, explicit=nm != prefix))
                if self.p(0.2):
                    out.append(self.blank())
        return out


class B:
    """An entry (tag or list entry) or a single other line."""

    kind = None
    renumbered_from = None
    sec = 0

    def __init__(self, line=None):
        self.line = line

    def __repr__(self):
        return f"<{self.kind} {self.__dict__}>"


class E(B):
    def __init__(self, kind, patch, comments, location, name="", sep="", prefix="", suffix="", sec=0):
        self.kind, self.patch, self.comments, self.location = kind, patch, list(comments), location
        self.name, self.sep, self.prefix, self.suffix, self.sec = name, sep, prefix, suffix, sec

    @property
    def explicit(self):
        return self.kind == "tag" and self.name[-1].isdigit()

    @property
    def text(self):
        if self.kind == "list":
            return self.location + self.suffix
        return self.prefix + self.name + self.sep + self.location + self.suffix


def model(doc):
    out = []
    for si, s in enumerate(doc.secs):
        if s.header is not None:
            b = B(s.header)
            b.sec = si
            out.append(b)
        for it in s.items:
            if it.kind == "tag" and it.info.get("source") or it.kind == "slentry":
                c = doc.attached(it)
                n = len(c) - len(it.comments)
                if n:
                    del out[-n:]
                if it.kind == "tag":
                    out.append(E("tag", it.patch, c, it.value, it.name, it.sep, it.prefix, it.suffix, si))
                else:
                    out.append(E("list", it.patch, c, it.location, suffix=it.lines[-1][len(it.location):], sec=si))
            else:
                for ln in it.lines:
                    b = B(ln)
                    b.sec = si
                    out.append(b)
    return out


def flat(blocks):
    out = []
    for b in blocks:
        if b.kind:
            out.extend(b.comments)
            out.append(b.text)
        else:
            out.append(b.line)
    return out


def numbers(entries):
    """Numbers RPM gives to the entries."""
    out, last = [], -1
    for e in entries:
        if e.explicit:
            n = int(re.search(r"\d+$", e.name).group())
        else:
            n = last + 1
        last = max(last, n)
        out.append(n)
    return out


class Editor:
    def __init__(self, ctx, doc):
        self.ctx, self.doc = ctx, doc
        self.blocks = model(doc)
        self.n = 0

    def entries(self, patch):
        e = [b for b in self.blocks if b.kind and b.patch == patch]
        return [b for b in e if b.kind == "tag"] + [b for b in e if b.kind == "list"]

    def loc(self):
        self.n += 1
        return self.ctx.rng.choice([f"new{self.n}.tar.gz", f"https://example.com/n{self.n}.patch", f"%{{name}}-n{self.n}.txt",
                                    f"https://example.com/%{{name}}#/n{self.n}.zip"])

    def align(self, lines, patch, new, order, removed, merged):
        """Matches actual lines against the blocks. new: locations that were added, order: expected order of entries
        (existing E objects or locations). Returns the new list of blocks or raises Violation."""
        rng_blocks = [b for b in self.blocks if not any(b is r for r in removed)]
        prefix = "Patch" if patch else "Source"
        out, i = [], 0

        def fail(why):
            want = flat(rng_blocks)
            check(False, f"{why}: lines other than those of the entry changed\n" + line_diff(want, lines), ops=self.ctx.trace[1:])

        pend = list(new)

        def is_new(k):
            """Is there a new entry at line k? Its comments, if any, start there."""
            if not pend:
                return None
            loc, comments = pend[0]
            cc = [f"# {c}" for c in comments]
            if lines[k:k + len(cc)] != cc or k + len(cc) >= len(lines):
                return None
            ln = lines[k + len(cc)]
            if ln == loc:
                return E("list", patch, cc, loc)
            m = re.fullmatch(rf"({prefix}\d*)(\s*:\s*)" + re.escape(loc), ln)
            if m:
                return E("tag", patch, cc, loc, m.group(1), m.group(2))
            return None

        for bi, b in enumerate(rng_blocks + [None]):
            while i < len(lines):
                e = is_new(i)
                if not e:
                    break
                if b is not None and b.kind and b.location == e.location and lines[i:i + len(b.comments) + 1] == b.comments + [b.text]:
                    # an equal entry; only take it for the new one if the order says so
                    k = sum(1 for x in out if x.kind and x.patch == patch and x.kind == e.kind)
                    same = [x for x in order if (x.kind if isinstance(x, E) else None) in (e.kind, None)]
                    if k < len(same) and same[k] is b:
                        break
                e.sec = out[-1].sec if out else 0
                out.append(e)
                i += len(e.comments) + 1
                pend.pop(0)
            if b is None:
                break
            if not b.kind:
                if i < len(lines) and lines[i] == b.line:
                    out.append(b)
                    i += 1
                    continue
                if (removed or merged) and not b.line.strip():
                    continue  # merged blank lines
                fail("edit")
            got = lines[i:i + len(b.comments) + 1]
            if got == b.comments + [b.text]:
                out.append(b)
            else:
                if b.kind != "tag" or got[:-1] != b.comments or b.patch != patch:
                    fail("edit")
                m = re.fullmatch(re.escape(b.prefix) + rf"({prefix}\d*)(\s*:\s*)" + re.escape(b.location + b.suffix), got[-1], re.I)
                if not m or not b.explicit:
                    fail("edit")
                b.renumbered_from = b.name
                b.name, b.sep = m.group(1), m.group(2)
                self.ctx.count("renumbered")
                out.append(b)
            i += len(b.comments) + 1
        if i != len(lines):
            fail("edit")
        check(not pend, "added entry is missing", missing=pend, lines=lines, ops=self.ctx.trace[1:])
        return out

    def settle(self, spec, patch, order, new, removed, multi=False):
        """After a view has been left: everything is compared."""
        ctx = self.ctx
        old = dict(zip(map(id, self.entries(patch)), numbers(self.entries(patch))))
        lines, _ = split(str(spec))
        for b in self.blocks:
            b.renumbered_from = None
        self.blocks = self.align(lines, patch, new, order, removed, multi)
        ents = self.entries(patch)
        got = [b.location for b in ents]
        want = [x.location if isinstance(x, E) else x for x in order]
        check(got == want, "order of entries in the file", got=got, want=want, spec=str(spec), ops=ctx.trace[1:])
        nums = numbers(ents)
        check(len(set(nums)) == len(nums), "entries share a number", numbers=nums, names=[b.name for b in ents], ops=ctx.trace[1:],
              spec=str(spec))
        for i, b in enumerate(ents):
            if b.renumbered_from and id(b) in old and not multi:
                check(old[id(b)] in nums[:i] + nums[i + 1:] or any(n == old[id(b)] for n in nums) and nums[i] != old[id(b)],
                      "entry renumbered without a collision", was=b.renumbered_from, now=b.name, names=[x.name for x in ents],
                      ops=ctx.trace[1:])
        for p, view in ((False, spec.sources()), (True, spec.patches())):
            e = self.entries(p)
            v = view.content
            check([s.location for s in v] == [b.location for b in e], "entries after leaving the view", got=[s.location for s in v],
                  want=[b.location for b in e], ops=ctx.trace[1:])
            check([s.number for s in v] == numbers(e), "numbers after leaving the view", got=[s.number for s in v], want=numbers(e))
            got = [[c.prefix + c.text for c in s.comments] for s in v]
            check(got == [b.comments for b in e], "comments of entries", got=got, want=[b.comments for b in e], ops=ctx.trace[1:])
            ctx.count("comments_kept", sum(len(b.comments) for b in e))
        ans = ctx.oracle.ask(str(spec), self.doc.macros, ctx.tmp / "d")
        check(ans["ok"], "RPM rejects the edited spec", error=ans["stderr"], spec=str(spec), ops=ctx.trace[1:])
        for p in (False, True):
            e = self.entries(p)
            rpm = sorted((n, loc) for n, loc, fl in ans["sources"] if bool(fl & 2) == p)
            ex = [(s.number, s.expanded_location) for s in (spec.patches() if p else spec.sources()).content]
            check(sorted(ex) == rpm, "RPM sees different entries", got=sorted(ex), rpm=rpm, ops=ctx.trace[1:], spec=str(spec))
        ctx.count("rpm_compared")
        return ents

    def op(self, spec):
        from specfile.exceptions import DuplicateSourceException, SourceNumberException

        rng, ctx = self.ctx.rng, self.ctx
        patch = rng.random() < 0.5
        ents = self.entries(patch)
        nums = numbers(ents)
        dup = rng.random() < 0.2
        kw = dict(allow_duplicates=dup)
        if rng.random() < 0.4:
            kw.update(default_to_implicit_numbering=rng.random() < 0.5, default_source_number_digits=rng.choice([0, 1, 2, 4]))

        def view():
            return spec.patches(**kw) if patch else spec.sources(**kw)

        k = rng.random()
        order = list(ents)
        new, removed = [], []
        what = "patches" if patch else "sources"
        before = str(spec)
        if k < 0.1 and ents:
            # rejected or allowed duplicate
            loc = rng.choice(ents).location
            i = rng.randint(0, len(ents))
            ctx.log(what, kw, "duplicate", i, loc)
            call = rng.choice(["insert", "append", "numbered", "add_patch"])
            try:
                if call == "add_patch" and patch:
                    # never allows duplicates
                    dup = False
                    spec.add_patch(loc)
                else:
                    with view() as v:
                        if call == "insert":
                            v.insert(i, loc)
                        elif call == "append" or call == "add_patch":
                            v.append(loc)
                            i = len(ents)
                        else:
                            i = v.insert_numbered(rng.choice(nums + [max(nums) + 1]), loc)
                            check(v[i].location == loc, "index returned by insert_numbered()")
                check(dup, "duplicate accepted", location=loc, call=call)
                order.insert(i, loc)
                new = [(loc, [])]
                ctx.count("op_duplicate_allowed")
            except DuplicateSourceException:
                check(not dup, "duplicate rejected although allowed")
                check(str(spec) == before, "rejected duplicate changed the spec", diff=line_diff(split(before)[0], split(str(spec))[0]))
                ctx.count("op_duplicate_rejected")
                return
        elif k < 0.25:
            loc = self.loc()
            i = rng.randint(0, len(ents) + 1)
            if ents and rng.random() < 0.25:
                i = -rng.randint(1, len(ents))
                ctx.count("op_insert_negative")
            elif ents and rng.random() < 0.2:
                i = 0
            ctx.log(what, kw, "insert", i, loc)
            with view() as v:
                v.insert(i, loc)
                check([s.location for s in v].index(loc) == (min(i, len(ents)) if i >= 0 else max(0, len(ents) + i)), "index of the new entry")
            order.insert(i, loc)
            new = [(loc, [])]
            ctx.count("op_insert")
        elif k < 0.35:
            locs = [self.loc() for _ in range(rng.choice([1, 1, 2, 3]))]
            ctx.log(what, kw, "append", locs)
            with view() as v:
                if len(locs) == 1 and rng.random() < 0.6:
                    v.append(locs[0])
                    ctx.count("op_append")
                else:
                    v.extend(locs)
                    ctx.count("op_extend")
            order += locs
            new = [(loc, []) for loc in locs]
        elif k < 0.5:
            loc = self.loc()
            tagged = [b for b in ents if b.kind == "tag"]
            n = rng.choice(nums + [0, 1, 5, 9, 50, max(nums, default=0) + 1, max(nums, default=0) + 7])
            ctx.log(what, kw, "insert_numbered", n, loc)
            with view() as v:
                i = v.insert_numbered(n, loc)
                check(isinstance(i, int) and v[i].location == loc, "index returned by insert_numbered()", index=i)
                got_n = v[i].number
            if tagged:
                tn = nums[:len(tagged)]
                d = min(abs(x - n) for x in tn)
                slots = {j + (1 if x < n else 0) for j, x in enumerate(tn) if abs(x - n) == d}
                check(i in slots, "entry is not next to the nearest number", number=n, numbers=tn, index=i)
            else:
                check(i == 0, "index of the only tag", index=i)
            order.insert(i, loc)
            new = [(loc, [])]
            ctx.count("op_insert_numbered")
            ents = self.settle(spec, patch, order, new, removed)
            if ents[i].explicit:
                check(numbers(ents)[i] == n and got_n == n, "explicitly numbered entry has a different number", requested=n,
                      name=ents[i].name, ops=ctx.trace[1:])
                ctx.count("explicit_number_kept")
            ctx.count("first_entry", not tagged)
            return
        elif k < 0.6 and patch:
            loc = self.loc()
            high = max(nums, default=-1)
            args = {}
            if rng.random() < 0.5:
                args["number"] = rng.choice([high, high + 1, high + 5, 0, 100])
            if rng.random() < 0.5:
                args["comment"] = rng.choice(["one comment", "two\nlines", "# hash"])
            if rng.random() < 0.4:
                args["initial_number"] = rng.choice([0, 1, 10])
            if rng.random() < 0.4:
                args["number_digits"] = rng.choice([1, 2, 4])
            ctx.log("add_patch", loc, args)
            bad = "number" in args and args["number"] <= high
            try:
                spec.add_patch(loc, **args)
                check(not bad, "too low patch number accepted", number=args.get("number"), highest=high)
            except SourceNumberException:
                check(bad, "patch number rejected", number=args.get("number"), highest=high)
                check(str(spec) == before, "rejected patch changed the spec")
                ctx.count("op_number_rejected")
                return
            comments = args.get("comment", "").splitlines()
            i = next(j for j, s in enumerate(spec.patches().content) if s.location == loc)
            order.insert(i, loc)
            ents = self.settle(spec, patch, order, [(loc, comments)], [])
            n = args.get("number", max(high + 1, args.get("initial_number", 0)))
            if ents[i].explicit:
                check(numbers(ents)[i] == n, "number of the added patch", want=n, name=ents[i].name, ops=ctx.trace[1:])
                ctx.count("explicit_number_kept")
            if not nums and "number_digits" in args and ents[i].explicit:
                check(ents[i].name == f"Patch{n:0{args['number_digits']}}", "number format", name=ents[i].name)
            ctx.count("comment_of_added", bool(comments))
            ctx.count("op_add_patch")
            return
        elif k < 0.68 and ents:
            i = rng.randrange(len(ents))
            if rng.random() < 0.3 and len(ents) > 1:
                j = min(len(ents), i + 2)
                sl = rng.choice([slice(i, j), slice(i, j), slice(None, None, 2), slice(i, None), slice(None, None, -1), slice(i - len(ents), None)])
                locs = [self.loc() for _ in ents[sl]]
                ctx.log(what, "set", sl, locs)
                with view() as v:
                    v[sl] = locs
                for b, loc in zip(ents[sl], locs):
                    b.location = loc
                ctx.count("op_set_slice")
            else:
                loc = self.loc()
                ctx.log(what, "set", i, loc)
                with view() as v:
                    if rng.random() < 0.5:
                        v[i if rng.random() < 0.6 else i - len(ents)] = loc
                        ctx.count("op_set")
                    else:
                        v[i].location = loc
                        ctx.count("op_location")
                ents[i].location = loc
        elif k < 0.72 and ents:
            i = rng.randrange(len(ents))
            ctx.log(what, "comment", i)
            with view() as v:
                v[i].comments.append(f"c{self.n}")
            ents[i].comments.append(f"# c{self.n}")
            ctx.count("op_comment")
        elif k < 0.82:
            if ents and rng.random() < 0.85:
                b = rng.choice(ents)
                gone = [x for x in ents if x.location == b.location]
                loc = b.location
            else:
                loc, gone = "no-such-source", []
                ctx.count("op_remove_missing")
            ctx.log(what, "remove", loc)
            with view() as v:
                v.remove(loc)
            ctx.count("op_remove" if gone else "op_remove_missing")
            ctx.count("op_remove_many", len(gone) > 1)
            removed = gone
        elif k < 0.9:
            n = rng.choice(nums) if nums and rng.random() < 0.85 else 77
            ctx.log(what, "remove_numbered", n)
            with view() as v:
                v.remove_numbered(n)
            removed = [b for b, x in zip(ents, nums) if x == n][:1]
            ctx.count("op_remove_numbered" if removed else "op_remove_missing")
        elif ents:
            i = rng.randrange(len(ents))
            q = rng.random()
            if q < 0.35:
                j = min(len(ents), i + rng.randint(1, 3))
                s = rng.choice([slice(i, j), slice(i, None), slice(None, None, 2), slice(j - 1, i - 1 if i else None, -1)])
                ctx.log(what, "del", s)
                with view() as v:
                    del v[s]
                removed = ents[s]
                ctx.count("op_del_slice")
            elif q < 0.7:
                s = i if rng.random() < 0.5 else i - len(ents)
                ctx.log(what, "del", s)
                with view() as v:
                    del v[s]
                removed = [ents[i]]
                ctx.count("op_del_index")
            elif q < 0.9:
                ctx.log(what, "pop", i)
                with view() as v:
                    got = v.pop(i)
                    check(got.location == ents[i].location, "popped entry", got=got.location, want=ents[i].location)
                removed = [ents[i]]
                ctx.count("op_pop")
            else:
                ctx.log(what, "clear")
                with view() as v:
                    v.clear()
                    check(len(v) == 0, "cleared")
                removed = list(ents)
                ctx.count("op_clear")
        else:
            return
        order = [x for x in order if not any(x is r for r in removed)]
        had = bool(ents)
        ents = self.settle(spec, patch, order, new, removed)
        for loc, _ in new:
            b = next(b for b in reversed(ents) if b.location == loc)
            ctx.count("into_list" if b.kind == "list" else "into_tags")
            ctx.count("first_entry", not had)
            if b.kind == "tag":
                ctx.count("explicit_number_kept" if b.explicit else "implicit_added")
                ctx.count("padded_added", bool(re.search(r"\D0\d", b.name)))

    def combined(self, spec):
        """Several operations within one view (comparing the locations only), then everything at once."""
        rng, ctx = self.ctx.rng, self.ctx
        patch = rng.random() < 0.5
        ents = self.entries(patch)
        order, removed, new = list(ents), [], []
        with (spec.patches() if patch else spec.sources()) as v:
            for _ in range(rng.randint(2, 4)):
                if order and rng.random() < 0.4:
                    i = rng.randrange(len(order))
                    ctx.log("combined del", patch, i)
                    del v[i]
                    x = order.pop(i)
                    if isinstance(x, E):
                        removed.append(x)
                else:
                    loc = self.loc()
                    i = rng.randint(0, len(order))
                    ctx.log("combined insert", patch, i, loc)
                    v.insert(i, loc)
                    order.insert(i, loc)
                got = [s.location for s in v]
                want = [x.location if isinstance(x, E) else x for x in order]
                check(got == want, "locations within a view", got=got, want=want, ops=ctx.trace[1:])
                ns = [s.number for s in v]
                check(len(set(ns)) == len(ns), "entries share a number within a view", numbers=ns, ops=ctx.trace[1:])
        lines = split(str(spec))[0]
        # order of new lines in the file: tags first
        locs = [x for x in order if not isinstance(x, E)]
        at = {loc: next(i for i, ln in enumerate(lines) if ln.endswith(loc)) for loc in locs}
        new = [(loc, []) for loc in sorted(locs, key=at.get)]
        self.settle(spec, patch, order, new, removed, multi=True)
        ctx.count("multi_op_views")


def branch_insert(ctx, spec, lines, es, patch):
    """Adds an entry next to others of the same branch."""
    def plain(x):
        return isinstance(x, dict) or x[:1].isalpha()

    at = [next(j for j, y in enumerate(lines) if y is x) for x in es]
    slots = [(k, j) for k, j in enumerate(at) if plain(lines[j - 1])]
    if plain(lines[at[-1] + 1]):
        slots.append((len(es), at[-1] + 1))
    if not slots:
        return False
    k, j = ctx.rng.choice(slots)
    kw = dict(default_to_implicit_numbering=False)
    ctx.log("branch insert", k)
    with (spec.patches(**kw) if patch else spec.sources(**kw)) as v:
        if k == len(es) and ctx.rng.random() < 0.5:
            v.append("new.x")
        else:
            v.insert(k, "new.x")
        inside = [(s.location, s.valid) for s in v]
    with (spec.patches() if patch else spec.sources()) as v:
        after = [(s.location, s.valid) for s in v]
        used = [s.expanded_location for s in v if s.valid]
    want = [x["loc"] for x in es]
    want.insert(k, "new.x")
    check([x for x, _ in inside] == want, "entries within the view", got=inside, want=want)
    check(inside == after, "validity of entries differs once the view is left", inside=inside, after=after, spec=str(spec))
    got = split(str(spec))[0]
    check(len(got) == len(lines) + 1 and got[j].endswith("new.x"), "position of the new entry", line=j, spec=str(spec))
    rest = got[:j] + got[j + 1:]
    for x, y in zip(lines, rest):
        check(y == x if isinstance(x, str) else y.endswith(x["line"][1]), "other line changed", got=y, want=x)
    a = ctx.oracle.ask(str(spec), [], ctx.tmp / "d")
    check(a["ok"], "RPM rejects the spec with a new entry", error=a["stderr"], spec=str(spec))
    rpm = sorted(loc for _, loc, fl in a["sources"] if bool(fl & 2) == patch)
    check(rpm == sorted(used), "RPM uses other entries", rpm=rpm, used=used, spec=str(spec))
    ctx.count("branch_insert")
    ctx.count("branch_insert_unused", not dict(after)["new.x"])
    return True


def branches(ctx):
    """Explicitly numbered entries, some of them in conditions (taken or not, with alternatives): operations on existing
    entries change exactly the lines of those entries."""
    from specfile import Specfile

    rng = ctx.rng
    lines, ents = ["Name: a", "Version: 1", "Release: 1", "Summary: s", "License: MIT"], {False: [], True: []}
    nums = {False: iter(range(0, 90)), True: iter(range(1, 90))}

    def entry(patch, n):
        loc = f"{'p' if patch else 's'}{len(ents[patch])}.x"
        if ents[patch] and rng.random() < 0.12:
            loc = rng.choice(ents[patch])["loc"]
        e = {"loc": loc, "n": n, "line": [f"{'Patch' if patch else 'Source'}{n}: ", loc]}
        ents[patch].append(e)
        lines.append(e)

    for _ in range(rng.randint(2, 6)):
        patch = rng.random() < 0.5
        k = rng.random()
        ind = rng.choice(["", "", "  "])
        if k < 0.35:
            entry(patch, next(nums[patch]))
        else:
            lines.append(ind + rng.choice(["%if 0", "%if 1", "%if 0%{?nosuch}", "%ifarch nosuch", "%ifnarch nosuch", "%if 0%{?__make:1}"]))
            n = [next(nums[patch]) for _ in range(rng.randint(1, 2))]
            for x in n:
                entry(patch, x)
            if rng.random() < 0.5:
                lines.append(ind + "%else")
                for x in n:
                    entry(patch, x if rng.random() < 0.7 else next(nums[patch]))
            lines.append(ind + "%endif")
    lines += ["", "%description", "d"]

    def text():
        return "".join((x if isinstance(x, str) else "".join(x["line"])) + "\n" for x in lines)

    ans = ctx.oracle.ask(text(), [], ctx.tmp / "d")
    p = ctx.tmp / "t.spec"
    p.write_text(text())
    ctx.log(text())
    spec = Specfile(p)
    check(ans["ok"], "harness: RPM rejects the file", error=ans["stderr"], text=text())
    for _ in range(rng.randint(1, 4)):
        patch = rng.random() < 0.5
        es = ents[patch]
        if not es:
            continue
        i = rng.randrange(len(es))
        e = es[i]
        op = rng.choice(["remove", "remove", "numbered", "del", "pop", "set", "location", "slice", "insert", "insert"])
        if op == "insert":
            if branch_insert(ctx, spec, lines, es, patch):
                break
            continue
        ctx.log("patches" if patch else "sources", op, i, e["loc"], e["n"])
        gone = []
        with (spec.patches() if patch else spec.sources()) as v:
            if op == "remove":
                v.remove(e["loc"])
                gone = [x for x in es if x["loc"] == e["loc"]]
            elif op == "numbered":
                if sum(x["n"] == e["n"] for x in es) > 1:
                    continue
                v.remove_numbered(e["n"])
                gone = [e]
            elif op == "del":
                del v[i]
                gone = [e]
            elif op == "pop":
                check(v.pop(i).location == e["loc"], "popped entry")
                gone = [e]
            elif op == "slice":
                del v[i:i + 2]
                gone = es[i:i + 2]
            else:
                loc = f"set{len(ctx.trace)}.x"
                if op == "set":
                    v[i] = loc
                else:
                    v[i].location = loc
                e["loc"] = e["line"][1] = loc
        for g in gone:
            lines[:] = [x for x in lines if x is not g]
            es[:] = [x for x in es if x is not g]
        check_lines(split(str(spec))[0], split(text())[0], f"content after {op}", ops=ctx.trace[1:])
        for q, view in ((False, spec.sources()), (True, spec.patches())):
            with view as v:
                got = [(s.number, s.location) for s in v]
                check(got == [(x["n"], x["loc"]) for x in ents[q]], "entries after the operation", got=got, want=[(x["n"], x["loc"]) for x in ents[q]],
                      ops=ctx.trace[1:])
        a = ctx.oracle.ask(str(spec), [], ctx.tmp / "d")
        check(a["ok"], "RPM rejects the edited spec", error=a["stderr"], spec=str(spec))
        ctx.count("branch_op")
    ctx.nontrivial(ctx.trace)


def run_case(ctx):
    rng = ctx.rng
    if rng.random() < 0.12:
        return branches(ctx)
    lists = rng.random() < 0.35
    g = G11(rng, lists=0.9 if lists else 0, conds=rng.choice([0, 0.3]), wrapped=0.1, subpackages=1, sec_conds=0, changelog=0, sections=False,
          extra_tags=3, sources=rng.choice(["any", "any", "none"] if lists else ["any", "any", "any", "none"]), prep=False)
    doc = g.doc()
    text = doc.text()
    ans = accepted(ctx, text, doc.macros, ctx.tmp / "d")
    spec, path, _ = open_doc(ctx, doc, oracle=ans)
    ed = Editor(ctx, doc)
    check(flat(ed.blocks) == doc.lines(), "harness: model")
    for _ in range(rng.choice([1, 2, 4, 6])):
        if rng.random() < 0.15:
            ed.combined(spec)
        else:
            ed.op(spec)
    if len(ctx.trace) > 1:
        ctx.nontrivial(ctx.trace)


MIN = "Name: a\nVersion: 1\nRelease: 1\nSummary: s\nLicense: MIT\n"
D = "%description\n"


def _mk(pre, op, post):
    def run(ctx):
        from specfile import Specfile

        p = ctx.tmp / "t.spec"
        p.write_text(MIN + pre)
        spec = Specfile(p)
        op(spec)
        check_lines(split(str(spec))[0], split(MIN + post)[0], "content after the edit")

    return run


def _src(fn, **kw):
    def f(spec):
        with spec.sources(**kw) as v:
            fn(v)
    return f


def fixed_cases():
    return [
        ("list-del", _mk(D + "%sourcelist\n# x\n\na\nb\n", _src(lambda v: v.remove_numbered(0)), D + "%sourcelist\n# x\n\nb\n")),
        ("first-patch-license", _mk("Source0: a\nSourceLicense: MIT\n" + D, lambda s: s.add_patch("p", number_digits=1),
                                    "Source0: a\nPatch0:  p\nSourceLicense: MIT\n" + D)),
        ("colon", _mk("Source9:a\n" + D, _src(lambda v: v.append("b")), "Source9:a\nSource10:b\n" + D)),
        ("implicit-after-removal", _mk("Source5: a\nSource: b\nSource0: c\n" + D, _src(lambda v: v.remove("a")),
                                       "Source: b\nSource1: c\n" + D)),
        ("branches-kept", _mk("%if 1\nSource0: a\n%else\nSource0: b\n%endif\nSource1: c\n" + D, _src(lambda v: v.remove("c")),
                              "%if 1\nSource0: a\n%else\nSource0: b\n%endif\n" + D)),
        ("taken", _mk("Source1: a\nSource0: b\n" + D, _src(lambda v: v.insert(0, "n")), "Source1: n\nSource2: a\nSource0: b\n" + D)),
    ]


def findings():
    def stale(body, op):
        """Does validity within a view differ from validity once the view is left?"""
        def run(ctx):
            from specfile import Specfile

            p = ctx.tmp / "t.spec"
            p.write_text(MIN + body)
            spec = Specfile(p)
            with spec.sources() as v:
                op(v)
                inside = [s.valid for s in v]
            with spec.sources() as v:
                return inside != [s.valid for s in v]

        return run

    def other_branch(ctx):
        """Does an entry inserted before the first entry of an %else branch break the spec?"""
        from specfile import Specfile

        p = ctx.tmp / "t.spec"
        p.write_text(MIN + "Source0: a\n%if 1\nSource1: b\n%else\nSource1: c\n%endif\n" + D)
        spec = Specfile(p)
        with spec.sources() as v:
            v.insert(2, "n")
        return not ctx.oracle.ask(str(spec), [], ctx.tmp / "d")["ok"]

    return [
        ("validity-after-endif", stale("Source0: a\n%if 0\nSource1: b\n%endif\n" + D, lambda v: v.append("c"))),
        ("validity-list-start", stale(D + "%sourcelist\na\n%if 0\nb\n%endif\n", lambda v: v.insert(0, "n"))),
        ("insert-into-else-branch", other_branch),
    ]
