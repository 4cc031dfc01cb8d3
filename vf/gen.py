"""Grammar-based generator of spec files with recorded ground truth.

Everything a check needs to know about a generated spec (which lines form which entity, which
branches are true, ...) is recorded here while the text is being produced, independently of how the
library parses it.
"""
import datetime

WORDS = (
    "alpha beta gamma delta tool library runtime helper for with and of the data-files C++ x86 don't "
    "\"quoted\" (paren) [brack] {brace} semi;colon back\\slash dollar$ab ~tilde caret^ at@sign 100%% a=b "
    "-dash --long *star# pipe| <angle> naïve żółć 日本語 e\u0301 nb\u00a0sp ls\u2028ep vt\x0bab ff\x0cab nel\x85x fs\x1cx tab\tbed"
).split(" ")
SAFE = "alpha beta gamma delta tool library runtime helper stuff thing core utils".split()
DEPTAGS = ["Requires", "BuildRequires", "Provides", "Conflicts", "Obsoletes", "Recommends", "Suggests",
           "Enhances", "Supplements", "BuildConflicts", "OrderWithRequires", "Requires(post)",
           "Requires(pre,postun)", "PreReq", "Requires (preun)", "Requires( posttrans )"]
SUBDEPTAGS = [t for t in DEPTAGS if not t.startswith("Build")]
SINGLE = [
    ("Epoch", ["0", "1", "12"]), ("BuildArch", ["noarch"]), ("Vendor", None), ("Packager", None),
    ("Distribution", None), ("Group", ["System/Tools"]), ("BugURL", ["https://bugs.example.com/1"]),
    ("VCS", ["git:https://example.com/r.git"]), ("AutoReqProv", ["no"]), ("Prefix", ["/usr"]),
    ("Summary(cs)", None), ("ExcludeArch", ["sparc", "alpha sparc"]), ("TranslationURL", ["https://t.example.com"]),
    ("URL", ["https://example.com/x?y=1&z", "https://example.com/%{name}"]),
]
DAYS = ("Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun")
MONTHS = ("Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")


class Item:
    def __init__(self, kind, lines, valid=True, **info):
        self.kind = kind
        self.lines = lines
        self.valid = valid
        self.info = info
        self.__dict__.update(info)

    def __repr__(self):
        return f"<{self.kind} {self.lines!r} valid={self.valid}>"


class Sec:
    def __init__(self, name, optstr="", header=None, items=None, delim=" "):
        self.name = name
        self.optstr = optstr
        self.header = header  # None for preamble
        self.items = items or []

    @property
    def id(self):
        return self.name + (" " + self.optstr if self.optstr else "")

    def body(self):
        return [ln for it in self.items for ln in it.lines]

    def lines(self):
        return ([] if self.header is None else [self.header]) + self.body()


class Doc:
    def __init__(self):
        self.secs = []
        self.trailing_newline = True
        self.macros = []
        self.name = None
        self.values = {}  # expansions known by construction

    def lines(self):
        return [ln for s in self.secs for ln in s.lines()]

    def text(self):
        return "\n".join(self.lines()) + ("\n" if self.trailing_newline else "")

    def items(self, kind=None):
        return [i for s in self.secs for i in s.items if kind is None or i.kind == kind]

    def attached(self, item):
        """Comment lines directly above a tag or a list entry, including commented out definitions."""
        sec = next(s for s in self.secs if any(i is item for i in s.items))
        out = []
        for i in sec.items:
            if i is item:
                n = len(i.comments)
                return out + i.lines[:n]
            for ln in i.lines:
                out = out + [ln] if ln.lstrip().startswith("#") else []
        raise KeyError

    def position(self, item):
        """Index of the first line of an item in the file."""
        n = 0
        for s in self.secs:
            if s.header is not None:
                n += 1
            for i in s.items:
                if i is item:
                    return n
                n += len(i.lines)
        raise KeyError

    def sec(self, id):
        return next(s for s in self.secs if s.id.lower() == id.lower())


class Gen:
    DEFAULTS = dict(
        conds=0.35, wrapped=0.15, multiline=0.12, comments=0.35, mds=0.9, unicode=0.4, ws=0.25, case=0.15,
        sources="any", src_conds=False, subpackages=2, prep=True, changelog=0.8, sections=True, lists=0.25,
        sec_conds=0.15, shell=0.03, lua=0.1, extra_tags=7, bodies=True, garbage=0.2, desc_trick=0.1,
        condmacros=True, multi_changelog=0.05, dup_mds=0.12,
    )

    def __init__(self, rng, **opts):
        self.r = rng
        self.o = dict(self.DEFAULTS, **opts)
        self.defined = []  # (name, body) of simple macros defined so far on a valid path
        self.nums = []  # (name, int value)
        self.n = 0
        self.used_single = set()
        self.stack = [True]
        self.names = set()

    # -- helpers ---------------------------------------------------------------------------------
    def p(self, x):
        return self.r.random() < x

    def pick(self, seq):
        return self.r.choice(seq)

    def fresh(self, prefix="m"):
        self.n += 1
        return f"{prefix}{self.n}"

    @property
    def valid(self):
        return all(self.stack)

    def words(self, lo=1, hi=4, safe=None):
        pool = SAFE if safe or (safe is None and not self.p(self.o["unicode"])) else WORDS
        ws = [self.pick(pool) for _ in range(self.r.randint(lo, hi))]
        # a value never starts or ends with (Unicode) whitespace and doesn't look like a comment
        return " ".join(ws)

    def ref(self):
        """A macro reference that is safe at this point."""
        c = self.r.random()
        if self.defined and c < 0.6:
            n = self.pick(self.defined)[0]
            return self.pick([f"%{{{n}}}", f"%{{?{n}}}", f"%{{?{n}:x%{{{n}}}}}", f"%{{!?{n}:none}}"])
        u = f"undef{self.r.randint(0, 5)}"
        return self.pick([f"%{{?{u}}}", f"%{{!?{u}:dflt}}", f"%{{?{u}:a%{{{u}}}b}}", f"%{{nil}}", f"%%{{{u}}}"])

    def trail(self):
        return self.pick([" ", "  ", "\t", " \t "]) if self.p(self.o["ws"] * 0.4) else ""

    def casing(self, s):
        if not self.p(self.o["case"]):
            return s
        # qualifiers of tags are case-sensitive
        s, par, rest = s.partition("(")
        return self.pick([s.lower(), s.upper(), s.capitalize(), s.swapcase()]) + par + rest

    def blank(self):
        return Item("blank", [self.pick(["", "", "", " ", "\t"]) if self.p(self.o["ws"]) else ""], self.valid)

    def comment_line(self):
        prefix = self.pick(["# ", "#", "#  ", " # ", "##", "#\t"]) if self.p(self.o["ws"] + 0.1) else "# "
        # text of a comment doesn't start with whitespace; a second hash is part of the text
        text = self.words(1, 5)
        if self.p(0.1):
            text = self.pick(["Foo: bar", "Requires: nothing", "%%if 0", "https://example.com/#frag", "", "!x"])
        if prefix == "##":
            return "#", "#" + text
        return prefix, text

    def comments(self):
        if not self.p(self.o["comments"]):
            return []
        return [self.comment_line() for _ in range(self.r.randint(1, 3))]

    # -- tags ------------------------------------------------------------------------------------
    def tag(self, name, value, plain=False, **info):
        """plain: the line must be there unconditionally and literally."""
        lit = self.casing(name)
        sep = ":" + " " * self.r.randint(1, 8)
        if self.p(self.o["ws"]):
            sep = self.pick([":\t", ":\t\t", " : ", ":", " :", " \t: "])
        prefix, suffix = "", ""
        if not plain and "\n" not in value and self.p(self.o["wrapped"]):
            if self.defined and self.p(0.6):
                prefix = f"%{{?{self.pick(self.defined)[0]}:"
            elif self.p(0.7):
                prefix = f"%{{!?undef{self.r.randint(0, 5)}:"
            else:
                prefix = f"%{{?undef{self.r.randint(0, 5)}:"
                info["skipped"] = True
            suffix = "}"
        ws = self.trail()
        if prefix and not _balanced(value):
            prefix = suffix = ""
            info.pop("skipped", None)
        comments = self.comments()
        return Item(
            "tag", [a + b for a, b in comments] + (prefix + lit + sep + value + suffix + ws).split("\n"),
            self.valid, name=lit, sep=sep, value=value, prefix=prefix, suffix=suffix + ws, comments=comments,
            wrapped=bool(prefix), skipped=info.pop("skipped", False), canonical=name, **info,
        )

    def dep_value(self, tag):
        v = f"pkg{self.r.randint(0, 99)}"
        if self.p(0.3):
            v += f" {self.pick(['>=', '=', '<'])} 1.{self.r.randint(0, 9)}"
        elif self.defined and self.p(0.2):
            v += f"-{self.ref()}" if self.p(0.5) else ""
        if tag in ("Requires", "Recommends") and self.p(0.15):
            v = f"(pkga{self.r.randint(0, 9)} or pkgb)"
        if self.p(0.1):
            v += f", pkg{self.r.randint(0, 99)}"
        return v

    def text_value(self):
        v = self.words(1, 5)
        if self.p(0.3):
            v += " " + self.ref() + " " + self.words(1, 2)
        if self.p(0.06):
            v += self.pick([" 100%%{", " 9%%(x", " a%%{b c", " %%%%(z"])
        return v

    def optional_tag(self, sub=False):
        if self.valid and self.p(self.o["multiline"]) and not sub:
            kind = self.pick(["lua", "expand", "cond", "shell", "shells"])
            n = self.fresh("pkgml")
            v = {
                "lua": f"%{{lua:\n  print(\"{n}\")\n}}",
                "expand": f"%{{expand:%{{?undef1:x\ny}}{n}}}",
                "cond": f"%{{!?undef1:{n}\n}}",
                "shell": f"%(echo \\\n{n})",
                "shells": f"%{{nil}}%(true\n(echo {n}\n))",
            }[kind]
            if kind != "shell" and self.p(self.o["ws"]):
                v = v.replace("\n", self.pick([" \n", "\t\n"]))
            return self.tag("Provides", v, plain=True)
        single = [s for s in SINGLE if s[0] not in self.used_single and s[0] not in self.o.get("exclude_tags", ())
                  and (s[0] != "BuildArch" or not self.o["conds"])]
        if single and not sub and self.p(0.35) and self.o.get("single_tags", True):
            name, values = self.pick(single)
            if self.valid:
                self.used_single.add(name)
            return self.tag(name, self.pick(values) if values else self.text_value())
        name = self.pick(SUBDEPTAGS if sub else DEPTAGS)
        return self.tag(name, self.dep_value(name))

    # -- macro definitions -----------------------------------------------------------------------
    def md(self, indent_ok=True, force_simple=False):
        name = self.fresh()
        o = self.o
        dup = not force_simple and self.p(o["dup_mds"])
        if dup:  # never referenced by anything else
            name = f"dup{self.r.randint(0, 2)}"
        is_global = self.p(0.65)
        ws0 = self.pick(["", "", "", " ", "\t"]) if self.p(o["ws"]) else ""
        ws1 = self.pick([" ", "  ", "\t"]) if self.p(o["ws"]) else " "
        ws2 = self.pick([" ", "   ", "\t"]) if self.p(o["ws"]) else " "
        ws3 = self.trail()
        c = self.r.random()
        style, prefix, lead, commented = "DNL", "", "%", False
        simple = True
        if not force_simple and c < 0.12:
            commented, style = True, "DNL"
            lead = self.pick(["%dnl %", "%dnl%", "%dnl  %", "%dnl %", "%dnl # %%", "%dnl foo %"])
        elif not force_simple and c < 0.2:
            commented, style, lead = True, "HASH", "#"
        elif not force_simple and c < 0.27:
            commented, style = True, "OTHER"
            lead = self.pick(["#%%", "# %%", "## foo %%"])
        b = self.r.random()
        params = ""
        num = None
        if b < 0.3 or force_simple:
            body = self.pick([f"{self.r.randint(0, 9)}.{self.r.randint(0, 20)}", self.pick(SAFE), f"v{self.r.randint(1, 99)}"])
        elif b < 0.4:
            num = self.r.randint(0, 60)
            body = str(num)
        elif b < 0.6:
            body = self.words(1, 4)
            if body.startswith("{"):  # RPM only takes the part in braces
                body = "x" + body
            simple = False
        elif b < 0.75:
            body = self.pick(SAFE) + self.ref()
            simple = False
        elif b < 0.82 and not commented:
            params = self.pick(["()", "(a:b)", "(-)", "(x:yz)", "(a: b)", "( )"])
            body = self.pick(["%{1}-%{?2}", "echo %{-a*} %{1}", "%*x%#"])
            simple = False
        elif b < 0.92 and not commented:
            body = self.multiline_body()
            ws3 = "" if body.endswith("\\") else ws3
            simple = False
        else:
            body = self.pick(["%{expand:%{nil}z}", "%%escaped", "%{!?undef2:q}", "%{lua:print('l')}", "a\\b", "%[1+2]"])
            simple = False
        kw = "global" if is_global else "define"
        text = f"{ws0}{lead}{kw}{ws1}{name}{params}{ws2}{body}{ws3}"
        it = Item("md", text.split("\n"), self.valid, name=name + params, body=body, is_global=is_global,
                  commented=commented, style=style, ws=(ws0, ws1, ws2, ws3), lead=lead, simple=simple,
                  wild=not simple)
        if self.valid and not commented and not dup:
            if num is not None:
                self.nums.append((name, num))
            if simple:
                self.defined.append((name, body))
        return it

    def multiline_body(self):
        k = self.r.random()
        inner = [self.pick(SAFE) for _ in range(self.r.randint(1, 3))]
        if k < 0.4:
            return "\\\n" + "\\\n".join(inner)
        if k < 0.6 and self.valid:
            return "first\\\n" + self.pick(["%if 0\\\nlast", "%prep\\\nlast", "%description x\\\nlast", "%endif\\\nlast", "last", "%prep", "  %description x", "%endif",
                                          "%if 1\\\nx\\\n%endif", "%if 0\\\nx\\\n%else\\\ny\\\n%endif", " \\\n  %endif", "%if 0", "x\\\n  %if 0%{?undef1}"])
        if k < 0.7:
            # braces that are balanced only over several lines
            return "%{expand:\n" + self.pick(["{{\n%prep\n}}\n%prep\n", "{\n{x}\n%description x\n}\n", "a {b {\n} c}\n%package x\n", "%{?undef1:\n{x}\n}\n%prep\n",
                                              "(\n)\n%prep\n", "\\{\n%prep\n", "%%{\n}\n%prep\n"]) + inner[0] + "\n}"
        if k < 0.76:
            # the same with parentheses
            return self.pick(["a) %(echo\n# %prep\necho 1)", "%(echo $(echo x)\necho 2)", "%(echo a; (echo b\n#%prep\n); echo c)", "b} %{expand:x\n%%prep\n}", "%(: (\n%description\n) )"])
        if k < 0.9:
            return "%{expand:\n" + self.pick(["", "%%prep\n", "# hash\n", "\n"]) + "\n".join(inner) + "\n}"
        return "%{lua:\nprint('a')\n}"

    # -- conditions ------------------------------------------------------------------------------
    def cond_expr(self):
        """Returns (keyword, lines after the keyword, truth)."""
        r = self.r
        c = r.random()
        if c < 0.12:
            v = r.random() < 0.5
            return "%if", [str(int(v))], v
        if c < 0.25:
            return "%if", [f"0%{{?undef{r.randint(0, 5)}}}"], False
        if c < 0.35:
            return "%if", [f"! 0%{{?undef{r.randint(0, 5)}}}"], True
        if c < 0.5 and self.nums:
            n, v = self.pick(self.nums)
            k = r.randint(0, 60)
            op = self.pick([">", "<", ">=", "<=", "==", "!="])
            return "%if", [f"%{{{n}}} {op} {k}"], eval(f"{v} {op} {k}")
        if c < 0.6 and self.defined:
            n, v = self.pick(self.defined)
            w = v if self.p(0.5) else "other"
            return "%if", [f'"%{{?{n}}}" == "{w}"'], w == v
        if c < 0.7 and self.defined:
            n, v = self.pick(self.defined)
            return self.pick([("%if", [f"%{{defined {n}}}"], True), ("%if", [f"%{{undefined {n}}}"], False),
                              ("%if", [f"0%{{?{n}:1}}"], True)])
        if c < 0.78:
            return self.pick([("%ifarch", ["x86_64"], True), ("%ifarch", ["aarch64 x86_64"], True),
                              ("%ifnarch", ["x86_64"], False), ("%ifarch", ["s390x ppc64le"], False),
                              ("%ifnarch", ["sparc"], True)])
        if c < 0.83:
            return self.pick([("%ifos", ["linux"], True), ("%ifnos", ["linux"], False), ("%ifos", ["darwin"], False)])
        if c < 0.9:
            a, b = r.random() < 0.5, r.random() < 0.5
            op = self.pick(["&&", "||"])
            v = (a and b) if op == "&&" else (a or b)
            return "%if", [f"{int(a)} {op} \\", f"  {int(b)}"], v
        if c < 0.95:
            f = dict(self.macros_override).get("fedora")
            k = r.randint(30, 45)
            return "%if", [f"0%{{?fedora}} >= {k}"], int("0" + (f or "")) >= k
        a = r.random() < 0.5
        return "%if", [f"({int(a)} || 0) && !0"], a

    def cond_block(self, body_fn, depth):
        """List of items of an %if block whose branches are filled by body_fn."""
        out = []
        kw, expr, truth = self.cond_expr()
        ind = self.pick(["", "", "", "  ", "\t"]) if self.p(self.o["ws"]) else ""

        def cond(kw, expr):
            if expr:
                first = f"{ind}{kw}{self.pick([' ', '  ']) if self.p(self.o['ws']) else ' '}{expr[0]}"
                return Item("cond", [first + self.ctrail(expr)] + expr[1:], self.valid)
            return Item("cond", [ind + kw + self.pick(["", "", " ", " # note"])], self.valid)

        out.append(cond(kw, expr))
        outer = self.valid
        taken = truth
        self.stack.append(truth)
        out.extend(body_fn(depth + 1))
        self.stack.pop()
        if kw == "%if":
            while self.p(0.2):
                kw2, expr, t = self.cond_expr()
                while kw2 != "%if":
                    kw2, expr, t = self.cond_expr()
                out.append(cond("%elif", expr))
                self.stack.append(t and not taken)
                out.extend(body_fn(depth + 1))
                self.stack.pop()
                taken = taken or t
        if self.p(0.35):
            out.append(cond("%else", []))
            self.stack.append(not taken)
            out.extend(body_fn(depth + 1))
            self.stack.pop()
        out.append(cond("%endif", []))
        assert self.valid == outer
        return out

    def ctrail(self, expr):
        return "" if len(expr) > 1 else self.trail()

    # -- preamble --------------------------------------------------------------------------------
    def unit(self, depth=0, sub=False):
        o = self.o
        c = self.r.random()
        if c < o["conds"] * 0.5 and depth < 3:
            return self.cond_block(lambda d: self.units(self.r.randint(0, 3), d, sub), depth)
        if c < 0.35:
            return [self.blank() for _ in range(self.r.randint(1, 2))]
        if c < 0.35 + 0.25 * o["mds"]:
            return [self.md()]
        if c < 0.66 and self.p(o["comments"]):
            lines = ["".join(self.comment_line()) for _ in range(self.r.randint(1, 2))]
            if self.p(0.15):
                # nothing but the comment character
                lines[-1] = self.pick(["#", "#", "##", "# #"])
            return [Item("comment", lines, self.valid), self.blank()]
        if c < 0.72 and self.p(o["garbage"]):
            t = self.pick(["%dnl Foo: bar", "%bcond_with xyz", "%{?undef0:%{undef0}}", "%{nil}", "%dnl %if 0",
                           "%{?undef3:Requires: %{undef3}} ", "%undefine undef4", "%dnl x"])
            if t.startswith("%bcond"):
                t += str(self.fresh(""))
            if "Requires" in t:
                return [Item("tag", [t], self.valid, name="Requires", sep=": ", value="%{undef3}", prefix="%{?undef3:",
                             suffix="} ", comments=[], wrapped=True, skipped=True, canonical="Requires")]
            return [Item("text", [t], self.valid)]
        return [self.optional_tag(sub)]

    def units(self, n, depth=0, sub=False):
        out = []
        for _ in range(n):
            out.extend(self.unit(depth, sub))
        return out

    def preamble(self, doc):
        o = self.o
        items = self.units(self.r.randint(0, 3))
        name = self.pick(["foo", "test-pkg", "lib_x", "a.b+c"])
        doc.name = name
        base = [("Name", name)]
        ver = f"{self.r.randint(0, 9)}.{self.r.randint(0, 99)}"
        rel = str(self.r.randint(1, 30))
        doc.values.update(name=name, version=ver, release=rel)
        version = ver
        if self.p(0.3) and o["mds"]:
            it = self.md(force_simple=True)
            it = self._md_with_body(it, ver)
            items.append(it)
            version = f"%{{{it.name}}}"
        base.append(("Version", version))
        base.append(("Release", rel + self.pick(["%{?dist}", "%{?dist}", "%dist", ""])))
        base.append(("Summary", self.text_value()))
        base.append(("License", self.pick(["MIT", "GPL-2.0-or-later AND MIT", "BSD-3-Clause"])))
        if self.p(0.2):
            self.r.shuffle(base)
        for n, v in base:
            items.append(self.tag(n, v, plain=not self.o.get("wrap_base")))
            if n != "Name":
                items.extend(self.units(self.r.randint(0, 1)))
            elif self.p(0.1):
                items.append(self.blank())
        items.extend(self.units(self.r.randint(0, o["extra_tags"])))
        if o["sources"] != "none":
            items.extend(self.source_tags(doc))
        items.extend(self.units(self.r.randint(0, 3)))
        if self.p(0.8):
            items.append(self.blank())
        return items

    def _md_with_body(self, it, body):
        kw = "global" if it.is_global else "define"
        w = it.ws
        self.defined = [(n, b) for n, b in self.defined if n != it.name]
        self.defined.append((it.name, body))
        return Item("md", [f"{w[0]}%{kw}{w[1]}{it.name}{w[2]}{body}{w[3]}"], it.valid, name=it.name, body=body,
                    is_global=it.is_global, commented=False, style="DNL", ws=w, lead="%", simple=True, wild=False)

    # -- sources ---------------------------------------------------------------------------------
    def location(self, patch=False, n=None):
        n = self.fresh("")
        ext = "patch" if patch else self.pick(["tar.gz", "tar.xz", "zip", "conf", "txt", "tar.bz2", "sig"])
        base = f"{'p' if patch else 's'}{n}.{ext}"
        c = self.r.random()
        if c < 0.45:
            return base
        if c < 0.6:
            return f"https://example.com/dl/{base}"
        if c < 0.68:
            return f"https://example.com/get?id={n}#/{base}"
        if c < 0.76 and self.defined:
            return f"{self.pick(SAFE)}-%{{{self.pick(self.defined)[0]}}}-{base}"
        if c < 0.86:
            return f"https://example.com/%{{name}}/{self.pick(['v%{version}', '%version', '%{VERSION}'])}/%{{name}}-{base}"
        if c < 0.92:
            return f"%{{?undef1:no}}{base}"
        return f"%{{url_{n}}}{base}" if False else f"sub+dir_{base}"

    def source_tags(self, doc):
        out = []
        for prefix, patch in (("Source", False), ("Patch", True)):
            mode = self.pick(["explicit", "explicit", "implicit", "mixed", "padded"])
            count = self.r.choice([0, 1, 2, 2, 3, 4, 5]) if self.o["sources"] == "any" else self.o["sources"]
            used, last = set(), -1
            group = []
            if mode in ("explicit", "padded") and self.p(0.25):
                start = self.r.choice([1, 10, 100])
            else:
                start = 0
            nxt = start
            for _ in range(count):
                explicit = mode in ("explicit", "padded") or (mode == "mixed" and self.p(0.5))
                if explicit:
                    num = nxt if self.p(0.8) else nxt + self.r.randint(0, 5)
                    if self.p(0.1):
                        num = self.r.randint(0, 30)
                    while num in used:
                        num += 1
                    nm = f"{prefix}{num:04d}" if mode == "padded" else f"{prefix}{num}"
                    last = max(last, num)
                else:
                    last += 1
                    num = last
                    if num in used:
                        continue
                    nm = prefix
                if not self.valid:
                    pass
                used.add(num)
                nxt = max(used) + 1
                it = self.tag(nm, self.location(patch), plain=self.p(0.85), source=True, patch=patch, number=num,
                              explicit=explicit)
                if it.skipped:
                    it = self.tag(nm, self.location(patch), plain=True, source=True, patch=patch, number=num,
                                  explicit=explicit)
                group.append(it)
                if self.p(0.15):
                    group.append(self.blank())
                if self.p(0.08):
                    group.append(self.optional_tag())
            doc.values["patches" if patch else "sources"] = sorted(used)
            out.extend(group)
        return out

    def list_section(self, patch):
        name = "patchlist" if patch else "sourcelist"
        items = []
        for _ in range(self.r.randint(0, 4)):
            if self.p(0.15):
                items.append(Item("blank", [""]))
            cm = self.comments() if self.p(0.5) else []
            loc = self.location(patch)
            items.append(Item("slentry", [a + b for a, b in cm] + [loc], True, location=loc, comments=cm, patch=patch))
        if self.p(0.4):
            items.append(Item("blank", [""]))
        return Sec(name, "", "%" + name, items)

    # -- other sections --------------------------------------------------------------------------
    def header(self, name, optstr=""):
        h = "%" + self.casing(name) + ((self.pick([" ", "  ", "\t"]) if self.p(self.o["ws"]) else " ") + optstr if optstr else "")
        return h + self.trail()

    def body_lines(self, name):
        out = []
        for _ in range(self.r.randint(0, 5)):
            c = self.r.random()
            if c < 0.2:
                out.append(Item("blank", [""]))
            elif c < 0.3 and self.o["mds"]:
                out.append(self.md())
            elif c < 0.42 and self.o["conds"]:
                out.extend(self.cond_block(lambda d: [self.script_line(name)] if self.p(0.8) else [], 1))
            else:
                out.append(self.script_line(name))
        return out

    def script_line(self, name):
        if name == "files":
            t = self.pick(["%doc README", "%license COPYING", "/usr/bin/x", "%{_bindir}/y*", "%dir /etc/z",
                           "%attr(0755, root, root) /usr/lib/q", "%ghost /var/a", "%config(noreplace) /etc/b"])
        elif name == "description":
            t = self.words(2, 8, safe=None)
            if t.startswith(("%", "#")):
                t = "x" + t
        else:
            t = self.pick(["make %{?_smp_mflags}", "%configure --foo", "install -m 644 a b", "echo \"%{name}\" 'x y'",
                           "# comment", "for i in 1 2; do echo $i; done", "cat <<EOF", "  indented", "%make_build",
                           "sed -i 's/a/b/' \\", "true # trailing", "%{?undef0:no}", "Name: not-a-tag"])
        return Item("text", [t + self.trail() if not t.endswith("\\") else t], self.valid)

    def prep(self, doc):
        items = []
        patches = doc.values.get("patches", [])
        has_source0 = 0 in doc.values.get("sources", [])
        r = self.r

        def noise():
            out = []
            while self.p(0.45):
                c = r.random()
                if c < 0.3:
                    out.append(Item("blank", [self.pick(["", "", " "])]))
                elif c < 0.4 and self.o["conds"]:
                    out.extend(self.cond_block(lambda d: [self.script_line("prep")], 1))
                elif c < 0.5 and self.o["mds"]:
                    out.append(self.md())
                elif c < 0.6:
                    out.append(Item("text", [self.pick(["%{?undef1:echo %{name}}", "%{!?undef1:echo ordinary}  ",
                                                        "cp %{SOURCE0} ." if has_source0 else "cp a b",
                                                        "echo 'unterminated", "%set_up foo", "%autosetupx y" if False else "%{?undef2:%%setup}x", "%{__patch} -p1 < x"])]))
                else:
                    out.append(self.script_line("prep"))
            return out

        items += noise()
        if has_source0 and self.p(0.8):
            if self.p(0.5):
                opts = self.pick(["-q", "-q -n %{name}-%{version}", "", "-n 'dir name'", "-q -c -T", "-qn x" if False else "-q",
                                  "-q -n %{?undef0:x}%{name}", "-n \"a b\" -q", "-D -T -q"])
                items.append(self.prepmacro("%setup", opts))
            else:
                opts = self.pick(["-p1", "-p1 -n %{name}-%{version}", "-N", "", "-S git -p2" if False else "-p2", "-v -p1"])
                items.append(self.prepmacro("%autosetup", opts))
            items += noise()
        for n in (patches if self.p(0.8) else patches[:1]):
            c = r.random()
            extra = self.pick(["-p1", "-p0 -b .orig", "", "-p1 -b '.s p'", "-p 1", "-R -p1", "-p1 -F 3", "-E", "-p1 -z .zz"])
            if c < 0.4:
                items.append(self.prepmacro(f"%patch{n}" if n or self.p(0.7) else "%patch0", extra, number=n))
            elif c < 0.7:
                items.append(self.prepmacro("%patch", (self.pick([f"-P {n}", f"-P{n}"]) + " " + extra).strip(), number=n))
            elif c < 0.85:
                items.append(self.prepmacro("%patch", self.pick([f"{n} {extra}".strip(), f"{extra} {n}".strip() if not extra.endswith(" ") else str(n)]), number=n))
            items += noise()
        if patches and self.p(0.1):
            items.append(self.prepmacro("%autopatch", self.pick(["-p1", "-v -p1", "-p1 -m 0 -M 100", ""])))
        return Sec("prep", "", self.header("prep"), items)

    def prepmacro(self, name, opts, number=None):
        delim = self.pick([" ", "  ", "\t"]) if self.p(self.o["ws"]) else " "
        if not opts:
            delim = ""
        prefix, suffix = "", ""
        if self.p(self.o["wrapped"]):
            if self.p(0.5) or not self.defined:
                prefix = f"%{{!?undef{self.r.randint(0, 5)}:"
            else:
                prefix = f"%{{?{self.pick(self.defined)[0]}:"
            suffix = "}"
            if self.p(0.2):
                prefix = self.pick(["  ", "\t"]) + prefix
            if self.p(self.o["ws"]):
                suffix += self.pick([" ", "\t", "  "])
        elif self.p(0.1):
            prefix = self.pick(["  ", "\t"])
        return Item("prepmacro", [f"{prefix}{name}{delim}{opts}{suffix}"], self.valid, name=name, opts=opts,
                    delim=delim, prefix=prefix, suffix=suffix, number=number)

    def changelog(self, n=None):
        items = []
        r = self.r
        if self.p(0.15):
            items.append(Item("text", [self.pick(["", "# comment", "# * not an entry"])]))
        day = datetime.date(2024, 1, 1) - datetime.timedelta(days=r.randint(0, 400))
        ext = self.p(0.25)
        pad = self.pick(["0", "0", "", " ", "0", "0", "", " ", " 0"])
        v = [9, 9, 9]
        for _ in range(r.choice([0, 1, 2, 3, 4, 6]) if n is None else n):
            e = ext if self.p(0.85) else not ext
            d = day
            ds = pad + str(d.day) if d.day < 10 else str(d.day)
            ts = f"{DAYS[d.weekday()]} {MONTHS[d.month - 1]} {ds}"
            if e:
                ts += f" {r.randint(0, 23):02d}:{r.randint(0, 59):02d}:{r.randint(0, 59):02d} {self.pick(['UTC', 'CET', 'EST', 'UTC', 'CET', 'EST', '-03', '+0530', 'GMT+2'])}"
            ts += f" {d.year}"
            author = self.pick(["John Doe <jd@example.com>", "Żółw Ąę <z@example.com>", "bot", "A-B C <a-b@c-d.org>",
                                "Name <n@e.com>  "]).rstrip()
            evr = f"{v[0]}.{v[1]}-{v[2]}"
            if self.p(0.15):
                evr = "1:" + evr
            if self.p(0.1):
                evr += ".fc38"
            if self.p(0.1):
                evr = evr.replace("-", "~rc1-")
            tail, truth = self.pick([(f" - {evr}", evr), (f" - {evr}", evr), (f" - {evr}", evr), (f" {evr}", evr),
                                     (f" - [{evr}]", evr), (f" - ({evr})", evr), (f" - {evr}:", evr),
                                     (f" - {evr} ", evr), ("", None)])
            header = f"* {ts} {author}{tail}"
            if truth is None and "-" in author.split(" ")[-1]:
                author = "bot"
                header = f"* {ts} {author}"
            content = []
            for _ in range(r.randint(1, 4)):
                t = self.pick(["- ", "  ", "- ", "+ "]) + self.words(1, 6)
                content.append(t)
                if self.p(0.08):
                    content.append("")
            if content[-1] == "":
                content.append("- last")
            if self.p(0.1):
                content.insert(0, "")
            follow = [""] * r.choice([1, 1, 1, 0, 2])
            if self.p(0.05):
                follow = [" "]
            items.append(Item("centry", [header] + content + follow, True, header=header, content=content,
                              follow=follow, evr=truth, ext=e, day=d, pad=pad, date=ts, author=author))
            day -= datetime.timedelta(days=r.randint(0, 90))
            k = r.randint(0, 2)
            if v[k] > 0:
                v[k] -= 1
        return Sec("changelog", "", self.header("changelog"), items)

    # -- the whole document ----------------------------------------------------------------------
    def doc(self):
        o, r = self.o, self.r
        doc = Doc()
        self.macros_override = []
        if self.p(0.3):
            self.macros_override = [("fedora", str(r.randint(30, 45)))]
        doc.macros = self.macros_override
        secs = [Sec("package", "", None, self.preamble(doc))]
        doc.secs = secs
        desc = []

        def add_desc(optstr, delim=" "):
            s = Sec("description", optstr, self.header("description", optstr), self.body_lines("description"))
            secs.append(s)

        if self.p(o["desc_trick"]):
            n = self.fresh("_desc")
            secs[0].items.append(Item("md", [f"%global {n} %{{expand:", "Text of the description.}"], True, name=n,
                                      body="%{expand:\nText of the description.}", is_global=True, commented=False,
                                      style="DNL", ws=("", " ", " ", ""), lead="%", simple=False, wild=True))
            s = Sec("description", "", f"%description %{{{n}}}", self.body_lines("description"))
            s.trick = f"%{{{n}}}"
            secs.append(s)
        else:
            add_desc("")
        subs = []
        for _ in range(r.randint(0, o["subpackages"])):
            if self.p(0.5):
                opt = self.fresh("sub")
            else:
                opt = f"-n {self.fresh('pkg')}"
            cond = self.p(o["sec_conds"])
            kw, expr, truth = ("%if", ["1"], True)
            if cond:
                kw, expr, truth = self.cond_expr()
                while len(expr) > 1:
                    kw, expr, truth = self.cond_expr()
                secs[-1].items.append(Item("cond", [f"{kw} {expr[0]}"]))
                self.stack.append(truth)
            ps = Sec("package", opt, self.header("package", opt), [])
            ps.valid = self.valid
            ps.items = [self.tag("Summary", self.text_value(), plain=True)] + self.units(r.randint(0, 3), 1, sub=True)
            secs.append(ps)
            add_desc(opt)
            if cond:
                secs[-1].items.append(Item("cond", ["%endif"]))
                self.stack.pop()
            subs.append((opt, truth))
        rest = []
        if o["prep"] and self.p(0.85):
            rest.append(self.prep(doc))
        for n in ("build", "install", "check", "generate_buildrequires", "conf"):
            if n in ("generate_buildrequires",) and not self.p(0.1):
                continue
            if n == "conf":
                continue
            if o["sections"] and self.p(0.6):
                rest.append(Sec(n, "", self.header(n), self.body_lines(n)))
        for n in ("post", "preun", "pretrans", "postun"):
            if o["sections"] and self.p(0.12):
                if self.p(0.4):
                    rest.append(Sec(n, "-p /sbin/ldconfig", self.header(n, "-p /sbin/ldconfig"), []))
                else:
                    rest.append(Sec(n, "", self.header(n), [Item("text", ["echo scriptlet"])]))
        if o["lists"] and self.p(o["lists"]):
            rest.append(self.list_section(False))
        if o["lists"] and self.p(o["lists"]):
            rest.append(self.list_section(True))
        if self.p(0.3):
            r.shuffle(rest)
        files = []
        if self.p(0.8):
            files.append(Sec("files", "", self.header("files"), self.body_lines("files")))
        for opt, truth in subs:
            if truth and self.p(0.6):
                files.append(Sec("files", opt, self.header("files", opt), self.body_lines("files")))
        secs.extend(rest + files)
        if self.p(o["changelog"]):
            cl = self.changelog()
            if self.p(0.9):
                secs.append(cl)
            else:
                secs.insert(r.randint(2, len(secs)), cl)
        doc.trailing_newline = self.p(0.85)
        last = doc.lines()[-1]
        if not doc.trailing_newline and last == "":
            doc.trailing_newline = True
        return doc


def _balanced(v):
    """Conservatively: can the value be wrapped into %{?x:...}?"""
    return not any(c in v for c in "{}\\") or ("{" in v and v.count("{") == v.count("}") and "\\" not in v
                                               and all(v[i - 1:i] == "%" for i, c in enumerate(v) if c == "{"))


def generate(rng, **opts):
    return Gen(rng, **opts).doc()
