"""C07 - adding a changelog entry produces one correct new top entry."""
import calendar
import datetime
import os
import re
import time

from vf.core import check
from vf.gen import DAYS, MONTHS, WORDS
from vf.util import check_lines, generate, join, open_doc, split

ID = "C07"
LEVEL = "exploration"
CASES = {"quick": 2600, "thorough": 20000}
RULE = """Grammar-generated spec files with no, an empty, a plain, an automatic or two (conditionalized) changelog
sections, with epochs, macros and dist suffixes in version and release; entries are added one after another with
generated texts, authors (also autodetected from the environment, a macro, git configuration), timestamps (date,
naive and aware time, none) and EVRs; the content is compared with the original lines plus one entry computed
independently (EVR from RPM, weekday from the calendar), and RPM is asked for the changelog of the result.
Non-trivial: at least one entry added; distinct by content and arguments."""
ASSUMPTIONS = ["for changelogs that mix paddings any padding in use is accepted"]
REQUIRED = ["entries_added", "no_changelog", "auto_changelog", "empty_changelog", "two_changelogs", "two_with_email",
            "default_evr", "given_evr", "epoch_in_evr", "dist_dropped", "rpm_read_back", "extended_by_style", "date_by_style",
            "padding_followed", "author_env", "author_macro", "author_git", "author_user", "commented_autochangelog",
            "second_entries", "text_lists", "auto_after_other_lines"]

AUTO = ["%autochangelog", "%{autochangelog}", "%{?autochangelog}", "  %autochangelog", "%{!?undef0:%autochangelog}"]
NOAUTO = ["# %%autochangelog", "# see %%{autochangelog}", "#%dnl %%autochangelog", "# %autochangelog", "  # was %autochangelog",
          "\t# %{?autochangelog}", " #%{!?undef0:%autochangelog}"]


def parts(spec_sec_lines):
    """(lines before the first entry, the rest) of a changelog section without its header line."""
    for i, ln in enumerate(spec_sec_lines):
        if ln.startswith("*"):
            return spec_sec_lines[:i], spec_sec_lines[i:]
    return list(spec_sec_lines), []


def run_case(ctx):
    from specfile import Specfile

    rng = ctx.rng
    kind = rng.choice(["none", "auto", "empty", "plain", "plain", "plain", "plain", "plain", "two", "noauto", "auto2"])
    doc = generate(rng, changelog=0, mds=0.4, extra_tags=4, sections=rng.random() < 0.2, subpackages=1, lists=0,
                   exclude_tags=("Packager",), dup_mds=0)
    from vf.gen import Gen

    def make(n=None):
        g = Gen(rng)
        g.o["case"] = 0.1
        items = g.changelog(n).items
        return items

    secs = []  # (header, items)
    extra = []
    if kind in ("plain", "noauto"):
        it = make(rng.choice([1, 1, 2, 3, 5]))
        body = [ln for i in it for ln in i.lines]
        if kind == "noauto":
            body = [rng.choice(NOAUTO)] + body
        secs = [body]
        extra = [rng.choice(["%changelog", "%changelog", "%Changelog", "%changelog "])] + body
    elif kind == "empty":
        body = rng.choice([[], [""], ["# nothing here"]])
        secs = [body]
        extra = ["%changelog"] + body
    elif kind == "auto":
        body = rng.choice([[], [], [], ["# comment"], ["%{expand:", "}"], ["%{?undef0:", "}", ""],
                           ["* Wed May 05 2021 A <a@b> - 2-1", "- two", ""]])
        ctx.count("auto_after_other_lines", bool(body))
        body = body + [rng.choice(AUTO)] + rng.choice([[], [""], ["* Tue May 04 2021 A <a@b> - 1-1", "- one"]])
        extra = ["%changelog"] + body
    elif kind in ("two", "auto2"):
        a, b = ([ln for i in make(rng.choice([0, 1, 2])) for ln in i.lines] for _ in range(2))
        if kind == "auto2":
            a = ["%autochangelog"]
        t = rng.random() < 0.5
        extra = [f"%if {int(t)}", "%changelog"] + a + ["%else", "%changelog"] + b + ["%endif"]
        secs = [a + ["%else"], b + ["%endif"]]
    at = len(doc.secs)
    if extra:
        from vf.gen import Item, Sec

        if kind not in ("two", "auto2") and rng.random() < 0.2:
            at = rng.randint(2, len(doc.secs))
        doc.secs.insert(at, Sec("changelog", "", None, [Item("text", extra)]))
    doc.trailing_newline = doc.trailing_newline or not extra or at < len(doc.secs) - 1 or not extra[-1]
    packager = None
    macros = list(doc.macros)
    who = rng.choice(["given", "given", "given", "email", "email", "env", "macro", "git", "user"])
    if who == "macro":
        macros.append(("packager", "Macro Man <m@m.org>"))
    doc.macros = macros
    spec, path, _ = open_doc(ctx, doc)
    lines = doc.lines()
    ctx.count({"none": "no_changelog", "auto": "auto_changelog", "empty": "empty_changelog", "two": "two_changelogs"}.get(kind, kind))
    if kind == "noauto":
        ctx.count("commented_autochangelog")
    head = [ln for s in doc.secs[:at] for ln in s.lines()]
    tail = [ln for s in doc.secs[at + 1:] for ln in s.lines()]
    env = dict(os.environ)
    cwd = os.getcwd()
    last = datetime.date(2024, 1, 2)
    try:
        os.chdir(ctx.tmp)
        for k in ("RPM_PACKAGER", "GIT_DIR", "EMAIL"):
            os.environ.pop(k, None)
        os.environ["GIT_CONFIG_NOSYSTEM"] = "1"
        os.environ["GIT_CONFIG_GLOBAL"] = str(ctx.tmp / "gitconfig")
        os.environ["HOME"] = str(ctx.tmp)
        (ctx.tmp / "gitconfig").write_text("")
        tz = rng.choice(["UTC", "UTC", "CET-1CEST", "EST5EDT"])
        os.environ["TZ"] = tz
        time.tzset()
        for step in range(rng.choice([1, 1, 2, 3])):
            args, kw = one(ctx, spec, doc, who, secs, last, packager)
            want_author, stamp = kw.pop("_author"), kw.get("timestamp")
            before = str(spec)
            evr = kw.get("evr")
            expr = evr if evr is not None else "%{?epoch:%{epoch}:}%{version}-%{release}"
            ans = ctx.oracle.ask(before, list(doc.macros) + [("dist", "")], ctx.tmp / "d", exprs=[expr])
            check(ans["ok"], "harness: content is rejected without dist")
            want_evr = ans["exprs"][0]
            t0 = datetime.datetime.now(datetime.timezone.utc)
            ctx.log("add", args, {k: str(v) for k, v in kw.items()}, who, tz)
            spec.add_changelog_entry(*args, **kw)
            t1 = datetime.datetime.now(datetime.timezone.utc)
            after = str(spec)
            if kind in ("none", "auto"):
                check(after == before, "spec without a plain changelog changed", before=before, after=after)
                continue
            content = [args[0]] if isinstance(args[0], str) else list(args[0])
            ctx.count("text_lists", not isinstance(args[0], str))
            got = split(after + ("" if doc.trailing_newline else "\n"))[0]
            # reconstruct what has to be there
            new = list(head)
            if kind in ("plain", "noauto", "empty"):
                new.append(extra[0])
                todo = [(0, [])]
            elif kind == "two":
                todo = [(0, extra[:2]), (1, ["%changelog"])]
            else:
                new += extra[:2] + secs[0]
                todo = [(1, ["%changelog"])]
            for si, pre in todo:
                new += pre
                p, rest = parts(secs[si])
                i = len(new) + len(p)
                check(got[:i] == new + p, "lines above the new entry changed", got=got[:i], want=new + p, trace=ctx.trace[1:])
                header = got[i] if i < len(got) else ""
                check_header(ctx, header, stamp, t0, t1, rest, want_author, want_evr, tz)
                entry = [header] + content + ([""] if rest else [])
                secs[si] = p + entry + rest
                new += secs[si]
            new += tail
            check_lines(got, new, "content after adding an entry", args=args, trace=ctx.trace[1:])
            ctx.count("entries_added")
            ctx.count("second_entries", step > 0)
            ctx.count("default_evr", evr is None)
            ctx.count("given_evr", evr is not None)
            ctx.count("two_with_email", kind == "two" and who == "email")
            if ":" in want_evr and evr is None:
                ctx.count("epoch_in_evr")
            full = ctx.oracle.ask(before, list(doc.macros), ctx.tmp / "d", exprs=[expr])["exprs"][0]
            ctx.count("dist_dropped", full != want_evr)
            # RPM's own opinion
            if kind in ("plain", "noauto", "empty"):
                r = ctx.oracle.ask(join(got, doc.trailing_newline), list(doc.macros), ctx.tmp / "d", want=["header"])
                if r["ok"] and r["header"]["CHANGELOGNAME"]:
                    h = r["header"]
                    check(h["CHANGELOGNAME"][0] == f"{want_author} - {want_evr}", "RPM's newest changelog entry",
                          got=h["CHANGELOGNAME"][0], want=f"{want_author} - {want_evr}")
                    check(h["CHANGELOGTEXT"][0] == "\n".join(content).strip(), "text RPM reads",
                          got=h["CHANGELOGTEXT"][0], want="\n".join(content))
                    if isinstance(stamp, datetime.date) and not isinstance(stamp, datetime.datetime):
                        check(h["CHANGELOGTIME"][0] == calendar.timegm(stamp.timetuple()) + 12 * 3600, "time RPM reads",
                              got=h["CHANGELOGTIME"][0], want=str(stamp))
                        check(f"bogus date in %changelog: {header[2:]}" not in r["stderr"], "RPM considers the date bogus",
                              stderr=r["stderr"])
                    ctx.count("rpm_read_back")
                elif r["ok"] is False:
                    check("changelog" not in r["error"] + r["stderr"] or stamp is None or "descending" in r["stderr"],
                          "RPM rejects the new changelog", stderr=r["stderr"])
            with spec.changelog() as cl:
                if kind in ("plain", "noauto", "empty"):
                    check(cl[-1].content == content and cl[-1].evr in (want_evr, None) or not re.search(r"\S-\S", want_evr),
                          "newest entry", got=cl[-1].evr)
            last = (stamp.date() if isinstance(stamp, datetime.datetime) else stamp or last)
        if kind not in ("none", "auto"):
            ctx.nontrivial(ctx.trace)
        if rng.random() < 0.2:
            spec.save()
            check(str(Specfile(path, macros=list(doc.macros))) == str(spec), "saved content")
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        time.tzset()
    check(len(lines) > 0, "harness")


def one(ctx, spec, doc, who, secs, last, packager):
    rng = ctx.rng
    text = [rng.choice(["- ", "- ", "  ", "+ "]) + " ".join(rng.choice([w for w in WORDS if "%" not in w])
                                                             for _ in range(rng.randint(1, 4))).strip() + "."
            for _ in range(rng.randint(1, 3))]
    args = (text[0],) if rng.random() < 0.5 else (text,)
    kw = {}
    if who == "given":
        kw["author"] = rng.choice(["John Doe <j@d.org>", "bot", "Żółw <z@z>", "A-B C <a-b@c-d.org>"])
        kw["_author"] = kw["author"]
    elif who == "email":
        kw["author"], kw["email"] = "Jane Roe", "jane@roe.org"
        kw["_author"] = "Jane Roe <jane@roe.org>"
    elif who == "env":
        os.environ["RPM_PACKAGER"] = "Env <e@n.v>"
        kw["_author"] = "Env <e@n.v>"
        ctx.count("author_env")
    elif who == "macro":
        kw["_author"] = "Macro Man <m@m.org>"
        ctx.count("author_macro")
    elif who == "git":
        (ctx.tmp / "gitconfig").write_text("[user]\n\tname = Git Person\n\temail = git@p.org\n")
        kw["_author"] = "Git Person <git@p.org>"
        ctx.count("author_git")
    else:
        import getpass
        import pwd

        u = getpass.getuser()
        kw["_author"] = pwd.getpwnam(u).pw_gecos or u
        ctx.count("author_user")
    k = rng.random()
    d = last + datetime.timedelta(days=rng.choice([0, 1, 2, 3, 5, 9, 25, 40, 59, 200]))
    if k < 0.35:
        kw["timestamp"] = d
    elif k < 0.5:
        kw["timestamp"] = datetime.datetime(d.year, d.month, d.day, rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    elif k < 0.65:
        tz = datetime.timezone.utc if rng.random() < 0.6 else datetime.timezone(datetime.timedelta(hours=1), "CET")
        kw["timestamp"] = datetime.datetime(d.year, d.month, d.day, rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59),
                                            tzinfo=tz)
    k = rng.random()
    if k < 0.15:
        kw["evr"] = rng.choice(["1.2-3", "7:1.2-3", "%{version}-%{release}", "%{version}-1%{?dist}", "%{?undef0:x}5-1", "2^git-1"])
    return args, kw


def check_header(ctx, header, stamp, t0, t1, rest, author, evr, tz):
    day = r"(?P<sp> +)(?P<zero>0?)(?P<day>\d\d?)"
    m = re.fullmatch(rf"\* (?P<wd>\w{{3}}) (?P<mon>\w{{3}}){day}(?: (?P<time>\d\d:\d\d:\d\d) (?P<tz>\S+))? (?P<year>\d{{4}}) (?P<rest>.*)",
                     header)
    check(m, "header of the new entry", header=header, trace=ctx.trace[1:])
    check(m["mon"] in MONTHS, "month of the new entry", header=header)
    date = datetime.date(int(m["year"]), MONTHS.index(m["mon"]) + 1, int(m["day"]))
    check(m["wd"] == DAYS[calendar.weekday(date.year, date.month, date.day)], "weekday of the new entry", header=header)
    check(m["rest"] == f"{author} - {evr}", "author or EVR of the new entry", header=header, author=author, evr=evr)
    headers = [ln for ln in rest if re.match(r"\* \w{3} \w{3} ", ln)]
    newest_ext = bool(headers) and bool(re.match(r"\* \w{3} \w{3} +\d+ \d\d:\d\d:\d\d ", headers[0]))
    if stamp is None:
        check(bool(m["time"]) == newest_ext, "timestamp style of the new entry", header=header, previous=headers[:1])
        ctx.count("extended_by_style" if newest_ext else "date_by_style")
        if newest_ext:
            # local time
            got = time.mktime(time.strptime(f"{date} {m['time']}", "%Y-%m-%d %H:%M:%S"))
            check(int(t0.timestamp()) - 3601 <= got <= t1.timestamp() + 3601, "time of the new entry", header=header, now=str(t0))
            check(m["tz"] in time.tzname, "timezone of the new entry", header=header, local=time.tzname)
        else:
            check(t0.date() <= date <= t1.date(), "date of the new entry", header=header, now=str(t0))
    elif isinstance(stamp, datetime.datetime):
        check(date == stamp.date() and m["time"] == f"{stamp.hour:02}:{stamp.minute:02}:{stamp.second:02}", "timestamp",
              header=header, want=str(stamp))
        check(m["tz"] == (stamp.tzname() or "UTC"), "timezone", header=header, want=str(stamp))
    else:
        check(date == stamp and not m["time"], "date of the new entry", header=header, want=str(stamp))
    # padding
    used = set()
    for h in headers:
        x = re.match(r"\* \w{3} \w{3} ( *)(0?)(\d+)", h)
        if int(x[3]) < 10:
            used.add(x[1] + x[2])
    pad = m["sp"][1:] + m["zero"]
    if date.day >= 10:
        check(pad in ("", " "), "padding of a two-digit day", header=header)
        check(pad == "" or any(" " in u for u in used), "padding of a two-digit day", header=header, used=used)
    elif not headers:
        check(pad == "0", "default padding", header=header)
    elif used:
        check(pad in used, "padding already in use isn't followed", header=header, used=used)
        ctx.count("padding_followed")


MIN = "Name: a\nVersion: 1\nRelease: 1%{?dist}\nSummary: s\nLicense: MIT\n\n%description\nd\n\n"


def _two(ctx):
    from specfile import Specfile

    p = ctx.tmp / "t.spec"
    p.write_text(MIN + "%if 1\n%changelog\n* Tue May 04 2021 A <a@b> - 1-1\n- one\n\n%else\n%changelog\n%endif\n")
    spec = Specfile(p)
    spec.add_changelog_entry("- x", author="A", email="a@b", timestamp=datetime.date(2024, 2, 29))
    h = "* Thu Feb 29 2024 A <a@b> - 1-1"
    check([ln for ln in str(spec).split("\n") if ln.startswith("* Thu")] == [h, h], "entries in two sections", got=str(spec))


def _ws(ctx):
    from specfile import Specfile

    p = ctx.tmp / "t.spec"
    p.write_text(MIN + "%changelog \n")
    spec = Specfile(p)
    spec.add_changelog_entry("- x", author="A", timestamp=datetime.date(2024, 2, 29))
    check(str(spec).endswith("%changelog \n* Thu Feb 29 2024 A - 1-1\n- x\n"), "section with trailing whitespace", got=str(spec))


def fixed_cases():
    return [("two-email", _two), ("trailing-whitespace", _ws)]
