"""C09 - option strings behave as maps and survive re-parsing."""
import ctypes

from vf.core import check

ID = "C09"
LEVEL = "exploration"
CASES = {"quick": 80000, "thorough": 800000}
RULE = """Option strings are generated word by word with known values (flags, options with attached and separate
arguments, positional and unrecognized words; each word plain, single- or double-quoted, escaped, glued of quoted and
unquoted parts, or holding macro expressions); a history of edits is applied to the Options object through the
attribute, item and positional interfaces and to a dictionary/list model. After every edit all items, the iteration
order, the result of parsing the rendered string again, the literal text of untouched words and (if there are no
macros) the words popt splits the string into are compared. Non-trivial: at least one edit; distinct by string and
history."""
ASSUMPTIONS = ["edits other than changing the value are not done to options given several times",
               "flags are not combined into one word (known finding)",
               "values are not empty, don't start with a dash and have no unterminated macro",
               "`in` on the mapping is not checked (recognized options always count as contained)"]
REQUIRED = ["op_set_repeated", "unmodified_rendered", "op_set_separate", "op_set_attached", "op_add", "op_flag_on", "op_flag_off", "op_flag_again",
            "op_del", "op_del_missing", "op_bad_type", "op_unknown", "op_pos_set", "op_pos_del", "op_pos_del_slice",
            "op_pos_insert", "op_pos_append", "op_pos_assign", "op_pos_pop", "op_pos_clear", "op_pos_set_slice", "op_none", "op_pop",
            "popt_splits_compared", "reparsed", "words_plain", "words_single", "words_double", "words_escaped", "words_glued", "words_macro",
            "literal_words_kept", "defaults_read", "tokenize_rejected_like_popt", "tokenize_compared"]

popt = ctypes.CDLL("libpopt.so.0")
popt.poptParseArgvString.argtypes = [ctypes.c_char_p, ctypes.POINTER(ctypes.c_int),
                                     ctypes.POINTER(ctypes.POINTER(ctypes.c_char_p))]


def popt_split(s):
    """Words as popt sees them, None if it rejects the string."""
    if not s.strip(" \t\n\r\x0b\x0c"):
        return []
    n, v = ctypes.c_int(), ctypes.POINTER(ctypes.c_char_p)()
    rc = popt.poptParseArgvString(s.encode("utf8", "surrogateescape"), ctypes.byref(n), ctypes.byref(v))
    if rc == -10:  # no words
        return []
    if rc:
        return None
    return [v[i].decode("utf8", "surrogateescape") for i in range(n.value)]


CHARS = list("abcxyz0123456789._/+=:,@~^#;$*()[]{}<>|&!-") + ["é", "日", "\u00a0", "½", "\u2028", "\x1c"]
MACROS = ["%{name}", "%{?x:a b}", "%[1 + 2]", "%(echo 'a b')", "%{?rc:-%{rc}}", "%foo", "%%", "%{lua:print(\"x y\")}"]


def rand_value(rng, ctx, macros=True):
    c = rng.random()
    if c < 0.15:
        return str(rng.choice([0, 1, 7, 42, 1000]))
    n = rng.randint(1, 6)
    v = "".join(rng.choice(CHARS) for _ in range(n))
    if c < 0.45:
        k = rng.randint(0, len(v))
        v = v[:k] + rng.choice([" ", "'", '"', "\\", "\t", "  ", "'\"", "\\'", " \\ ", '\\"', "\\\\"]) + v[k:]
    elif macros and c < 0.65:
        k = rng.randint(0, len(v))
        v = v[:k] + rng.choice(MACROS) + v[k:]
    if v.startswith("-"):
        v = "v" + v
    return v.replace("%-", "%_")


def chunks(v):
    """Splits a value into macro expressions and single characters."""
    out = []
    i = 0
    ms = sorted(MACROS, key=len, reverse=True)
    while i < len(v):
        m = next((m for m in ms if v.startswith(m, i)), None)
        if m == "%foo":
            # takes all characters of the name
            j = i + 4
            while j < len(v) and (v[j].isalnum() or v[j] == "_"):
                j += 1
            m = v[i:j]
        if m:
            out.append(m)
            i += len(m)
        else:
            out.append(v[i])
            i += 1
    return out


def bare(c):
    return c if len(c) > 1 else ("\\" + c if c in " \t\n\r\x0b\x0c'\"\\" else c)


def quoted(cs, q):
    """Text of a quoted string, or None if the value can't be written that way."""
    out = ""
    for i, c in enumerate(cs):
        if c == "\\":
            # a backslash stays unless it precedes a quote
            nxt = cs[i + 1] if i + 1 < len(cs) else q
            if nxt == q or nxt == "\\":
                return None
            out += c
        elif c == q:
            out += "\\" + c
        else:
            out += c
    return f"{q}{out}{q}"


def encode(rng, ctx, v, lead=""):
    """Writes a word: text that has to be read as lead + v."""
    cs = chunks(v)
    style = rng.choice(["plain", "single", "double", "escaped", "glued"])
    if any(len(c) > 1 for c in cs):
        ctx.count("words_macro")
    text = None
    if style in ("single", "double"):
        t = quoted(cs, "'" if style == "single" else '"')
        if t is not None and (not lead or rng.random() < 0.7):
            text = lead + t
    elif style == "glued" and len(cs) > 1:
        k = rng.randint(1, len(cs) - 1)
        q = rng.choice("'\"")
        if rng.random() < 0.5:
            a, b = quoted(cs[:k], q), "".join(bare(c) for c in cs[k:])
        else:
            a, b = "".join(bare(c) for c in cs[:k]), quoted(cs[k:], q)
        if a is not None and b is not None:
            text = lead + a + b
    if text is None:
        text = lead + "".join(bare(c) for c in cs)
        style = "plain" if text == lead + v else "escaped"
        if style == "plain" and rng.random() < 0.1 and len(cs[0]) == 1 and cs[0].isalnum():
            text, style = lead + "\\" + text[len(lead):], "escaped"
    ctx.count("words_" + style)
    return text


class Item:
    def __init__(self, kind, name, value, text):
        self.kind, self.name, self.value, self.text = kind, name, value, text
        self.clean = True


def num(v):
    return int(v) if v and all(c in "0123456789" for c in v) else v


class Model:
    def __init__(self, ctx):
        rng = ctx.rng
        letters = rng.sample("abcdefgnpqRSTvzDFMP", rng.randint(2, 7))
        self.arg = {c: rng.random() < 0.6 for c in letters}
        self.optstring = "".join(c + (":" if self.arg[c] else "") for c in letters)
        self.letters = letters
        self.defaults = {c: rng.choice(["dflt", 7]) for c in letters if self.arg[c] and rng.random() < 0.2}
        self.items = []
        parts = []
        todo = [c for c in letters if rng.random() < 0.6]
        words = [("opt", c) for c in todo] + [("pos", None)] * rng.choice([0, 0, 1, 2, 3])
        if rng.random() < 0.1:
            words.append(("other", rng.choice([c for c in "XYW" if c not in letters])))
        rng.shuffle(words)

        def ws():
            return rng.choice([" ", " ", " ", "  ", "\t", " \t ", "\x0b"])

        for kind, c in words:
            if kind == "pos":
                v = rand_value(rng, ctx)
                it = Item("pos", None, num(v), encode(rng, ctx, v))
            elif kind == "other":
                it = Item("other", c, None, rng.choice([f"-{c}", f"--{c}ong", f"-{c}1"]))
            elif not self.arg[c]:
                it = Item("opt", c, True, f"-{c}")
            else:
                v = rand_value(rng, ctx)
                if rng.random() < 0.5:
                    it = Item("opt", c, num(v), f"-{c}" + ws() + encode(rng, ctx, v))
                else:
                    it = Item("opt", c, num(v), encode(rng, ctx, v, lead=f"-{c}"))
            self.items.append(it)
        text = ""
        for i, it in enumerate(self.items):
            text += (ws() if i else "") + it.text
        if rng.random() < 0.1 and text:
            text += ws()
        if rng.random() < 0.05:
            text = ws() + text
        self.text = text

    def opts(self):
        return {it.name: it.value for it in self.items if it.kind == "opt"}

    def pos(self):
        return [it.value for it in self.items if it.kind == "pos"]


def observe(o):
    return {c: o[c] for c in o}, list(o.positional)


def getopt(words, model):
    out, pos = {}, []
    words = list(words)
    while words:
        w = words.pop(0)
        if w.startswith("-"):
            c = w[1:2]
            if c in model.arg:
                if model.arg[c]:
                    out[c] = num(w[2:] or words.pop(0))
                else:
                    out[c] = True
        else:
            pos.append(num(w))
    return out, pos


def verify(ctx, m, o, what):
    from specfile.options import Options

    text = str(o)
    info = dict(string=m.text, rendered=text, optstring=m.optstring, ops=ctx.trace)
    for name, got in (("", o), (" after parsing the rendered string again", Options(Options.tokenize(text), m.optstring, m.defaults))):
        opts, pos = observe(got)
        check(opts == m.opts() and [type(x) for x in opts.values()] == [type(m.opts()[k]) for k in opts], f"{what}: options{name}", got=opts, want=m.opts(), **info)
        check(pos == m.pos(), f"{what}: positional arguments{name}", got=pos, want=m.pos(), **info)
        check(list(got) == [c for c in m.letters if c in m.opts()], f"{what}: iteration{name}", got=list(got), **info)
        check(len(got) == len(m.opts()), f"{what}: length{name}", got=len(got), **info)
        check(len(got.positional) == len(m.pos()), f"{what}: number of positional arguments{name}", **info)
        for c in m.letters:
            want = m.opts().get(c, m.defaults.get(c) if m.arg[c] else False)
            check(getattr(got, c) == want and got[c] == want and got.get(c) == want, f"{what}: option -{c}{name}", got=getattr(got, c), want=want, **info)
            if c not in m.opts() and c in m.defaults:
                ctx.count("defaults_read")
        for i, v in enumerate(m.pos()):
            check(got.positional[i] == v and got.positional[i - len(m.pos())] == v, f"{what}: positional argument {i}{name}", **info)
    ctx.count("reparsed")
    k = 0
    for it in m.items:
        if it.clean:
            j = text.find(it.text, k)
            check(j >= 0, f"{what}: literal text of an untouched item changed", item=it.text, **info)
            k = j + len(it.text)
            ctx.count("literal_words_kept")
    if "%" not in text:
        words = popt_split(text)
        check(words is not None, f"{what}: RPM can't split the string", **info)
        check(getopt(words, m) == (m.opts(), m.pos()), f"{what}: RPM sees different options", got=words, want=(m.opts(), m.pos()), **info)
        ctx.count("popt_splits_compared")


def op(ctx, m, o):
    from specfile.exceptions import OptionsException

    rng = ctx.rng
    k = rng.random()
    pos = [it for it in m.items if it.kind == "pos"]
    macros = rng.random() < 0.3

    def value():
        v = num(rand_value(rng, ctx, macros))
        return v

    def setv(c, v):
        if rng.random() < 0.5:
            setattr(o, c, v)
        else:
            o[c] = v

    if k < 0.5:
        c = rng.choice(m.letters)
        it = next((i for i in m.items if i.kind == "opt" and i.name == c), None)
        q = rng.random()
        if q < 0.08:
            bad = rng.choice([True, False]) if m.arg[c] else rng.choice(["x", 1, 0, ""])
            before = str(o)
            ctx.log("bad type", c, repr(bad))
            try:
                setv(c, bad)
                check(False, "value of a wrong type was accepted", option=c, value=bad, rendered=str(o))
            except OptionsException:
                check(str(o) == before, "rejected value changed the options", before=before, after=str(o))
            ctx.count("op_bad_type")
        elif q < 0.3:
            ctx.log("del", c)
            w = rng.random()
            if w < 0.4:
                delattr(o, c)
            elif w < 0.7:
                del o[c]
            elif w < 0.85:
                setv(c, None)
                ctx.count("op_none")
            else:
                got = o.pop(c)
                want = it.value if it else (m.defaults.get(c) if m.arg[c] else False)
                check(got == want, "popped option", got=got, want=want)
                ctx.count("op_pop")
            if it:
                m.items.remove(it)
                ctx.count("op_del")
            else:
                ctx.count("op_del_missing")
        elif not m.arg[c]:
            v = rng.random() < 0.6
            ctx.log("flag", c, v)
            setv(c, v)
            ctx.count("op_flag_again" if v and it else "op_flag_on" if v else "op_flag_off")
            if v and not it:
                m.items.append(Item("opt", c, True, f"-{c}"))
                m.items[-1].clean = False
            elif not v and it:
                m.items.remove(it)
        else:
            v = value()
            ctx.log("set", c, repr(v))
            setv(c, v)
            if it:
                ctx.count("op_set_separate" if it.text[2:3] in " \t\x0b" else "op_set_attached")
                it.value, it.clean = v, False
            else:
                m.items.append(Item("opt", c, v, ""))
                m.items[-1].clean = False
                ctx.count("op_add")
    elif k < 0.53:
        try:
            o["U"]
            check(False, "unknown option can be read")
        except KeyError:
            pass
        ctx.count("op_unknown")
    else:
        p = o.positional
        q = rng.random()
        if q < 0.2 and pos:
            i = rng.randrange(len(pos))
            v = value()
            ctx.log("positional set", i, repr(v))
            p[i if rng.random() < 0.6 else i - len(pos)] = v
            pos[i].value, pos[i].clean = v, False
            ctx.count("op_pos_set")
        elif q < 0.25 and pos:
            i = rng.randrange(len(pos))
            vs = [value() for _ in pos[i:i + 2]]
            ctx.log("positional set slice", i, vs)
            p[i:i + 2] = vs
            for it, v in zip(pos[i:], vs):
                it.value, it.clean = v, False
            ctx.count("op_pos_set_slice")
        elif q < 0.4 and pos:
            i = rng.randrange(len(pos))
            ctx.log("positional del", i)
            if rng.random() < 0.7:
                del p[i if rng.random() < 0.6 else i - len(pos)]
                ctx.count("op_pos_del")
            else:
                got = p.pop(i)
                check(got == pos[i].value, "popped positional argument", got=got, want=pos[i].value)
                ctx.count("op_pos_pop")
            m.items.remove(pos[i])
        elif q < 0.5 and pos:
            s = rng.choice([slice(0, 2), slice(1, None), slice(None, None, 2), slice(None, None, -1), slice(-1, None)])
            ctx.log("positional del", s)
            del p[s]
            for it in pos[s]:
                m.items.remove(it)
            ctx.count("op_pos_del_slice")
        elif q < 0.7:
            i = rng.randint(0, len(pos) + 1)
            if pos and rng.random() < 0.2:
                i = -rng.randint(1, len(pos))
            v = value()
            ctx.log("positional insert", i, repr(v))
            p.insert(i, v)
            new = Item("pos", None, v, "")
            new.clean = False
            vals = list(pos)
            vals.insert(i, new)
            j = vals.index(new)
            at = m.items.index(vals[j + 1]) if j + 1 < len(vals) else len(m.items)
            m.items.insert(at, new)
            ctx.count("op_pos_insert")
        elif q < 0.85:
            v = value()
            ctx.log("positional append", repr(v))
            if rng.random() < 0.7:
                p.append(v)
            else:
                p.extend([v])
            new = Item("pos", None, v, "")
            new.clean = False
            m.items.append(new)
            ctx.count("op_pos_append")
        elif q < 0.95:
            vs = [value() for _ in range(rng.randint(0, 3))]
            ctx.log("positional assign", vs)
            o.positional = vs
            for it in pos:
                m.items.remove(it)
            for v in vs:
                m.items.append(Item("pos", None, v, ""))
                m.items[-1].clean = False
            ctx.count("op_pos_assign")
        else:
            ctx.log("positional clear")
            p.clear()
            for it in pos:
                m.items.remove(it)
            ctx.count("op_pos_clear")


def words_case(ctx):
    """Arbitrary strings: words are those popt finds, or both reject the string."""
    from specfile.exceptions import OptionsException
    from specfile.options import Options, TokenType

    rng = ctx.rng
    s = "".join(rng.choice(["a", "b", "-", "1", " ", "  ", "'", '"', "\\", "\t", "é", "\u00a0", "\x0b", "\x1f", "=", "{"])
                for _ in range(rng.randint(0, 14)))
    ctx.log("string", repr(s))
    want = popt_split(s)
    # popt tolerates a missing closing quote, RPM's callers never see a word out of it
    try:
        tokens = Options.tokenize(s)
    except OptionsException as e:
        if "closing" in str(e):
            ctx.count("tokenize_unclosed")
        else:
            check(want is None, "string rejected but RPM can split it", string=s, words=want)
            ctx.count("tokenize_rejected_like_popt")
        return
    check(want is not None, "RPM can't split a string that was accepted", string=s, tokens=repr(tokens))
    got = [t.value for t in tokens if t.type != TokenType.WHITESPACE and t.value]
    check(got == want, "string split differently from RPM", string=s, got=got, want=want)
    check("".join(str(t) for t in tokens) == s, "tokens don't add up to the string", string=s)
    ctx.count("tokenize_compared")
    if len(want) > 1:
        ctx.nontrivial(s)


def repeated_case(ctx):
    """Options given several times: they count once and the last value wins, as in RPM."""
    from specfile.options import Options

    rng = ctx.rng
    m = Model(ctx)
    items = [it for it in m.items if it.kind != "other"]
    for it in [it for it in items if it.kind == "opt"]:
        for _ in range(rng.choice([0, 1, 2])):
            v = rand_value(rng, ctx, False) if m.arg[it.name] else None
            text = f"-{it.name}" if v is None else rng.choice([f"-{it.name} ", f"-{it.name}  "]) + encode(rng, ctx, v)
            items.insert(rng.randint(0, len(items)), Item("opt", it.name, True if v is None else num(v), text))
    text = " ".join(it.text for it in items)
    ctx.log("string", repr(text), m.optstring)
    o = Options(Options.tokenize(text), m.optstring, m.defaults)

    def same(o, what):
        want = {it.name: it.value for it in items if it.kind == "opt"}
        pos = [it.value for it in items if it.kind == "pos"]
        got = observe(o)
        check(got == (want, pos), f"{what} with repeated options", string=text, optstring=m.optstring, got=got, want=(want, pos))
        check(len(o) == len(list(o)) == len(want), f"{what}: number of repeated options", string=text, got=len(o), want=len(want))

    same(o, "options")
    check(str(o) == text, "rendering an unmodified option string", got=str(o), want=text)
    last = {it.name: it for it in items if it.kind == "opt"}
    for it in rng.sample(list(last.values()), min(len(last), 2)):
        if m.arg[it.name]:
            it.value = num(rand_value(rng, ctx, False))
            ctx.log("set", it.name, repr(it.value))
            o[it.name] = it.value
            same(o, "options after a change")
            same(Options(Options.tokenize(str(o)), m.optstring, m.defaults), "options after a change and reparsing")
            ctx.count("op_set_repeated")
    if len(items) > len(m.items):
        ctx.nontrivial(ctx.trace)


def run_case(ctx):
    from specfile.options import Options

    rng = ctx.rng
    if rng.random() < 0.05:
        return repeated_case(ctx)
    if rng.random() < 0.3:
        for _ in range(5):
            words_case(ctx)
        return
    m = Model(ctx)
    ctx.log("string", repr(m.text), m.optstring, m.defaults)
    o = Options(Options.tokenize(m.text), m.optstring, m.defaults)
    check(str(o) == m.text, "rendering an unmodified option string", got=str(o), want=m.text)
    ctx.count("unmodified_rendered")
    verify(ctx, m, o, "reading")
    check(str(o) == m.text, "reading changed the option string", got=str(o), want=m.text)
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        op(ctx, m, o)
        verify(ctx, m, o, ctx.trace[-1])
    ctx.nontrivial(ctx.trace)


def _mk(text, optstring, fn, want):
    def run(ctx):
        from specfile.options import Options

        o = Options(Options.tokenize(text), optstring)
        fn(o)
        check(str(o) == want, "rendered string", got=str(o), want=want)

    return run


def _pos_insert(o):
    o.positional.insert(0, "a b")


def _combined(ctx):
    from specfile.options import Options

    o = Options(Options.tokenize("-qn foo"), "qn:")
    return o.n != "foo" or o.q is not True


def findings():
    return [("combined-flags", _combined)]


def fixed_cases():
    return [
        ("flag-deletion", _mk("-q -n x", "qn:", lambda o: delattr(o, "q"), "-n x")),
        ("flag-again", _mk("-q -n x", "qn:", lambda o: setattr(o, "q", True), "-q -n x")),
        ("positional-first", _mk("x -q", "q", _pos_insert, '"a b" x -q')),
        ("literal", _mk("-n 'a\\b' \"x\\y\" z\\ w", "n:", lambda o: None, "-n 'a\\b' \"x\\y\" z\\ w")),
        ("empty", _mk("-n '' x", "n:", lambda o: None, "-n '' x")),
        ("glued", _mk("-n a\"b c\" x", "n:", lambda o: check(o.n == "ab c" and list(o.positional) == ["x"], "glued word"), "-n a\"b c\" x")),
        ("attached-glued", _mk("-n\"b c\" x", "n:", lambda o: check(o.n == "b c" and list(o.positional) == ["x"], "glued word"), "-n\"b c\" x")),
        ("numeric", _mk("-n \u00bd \u00b2", "n:", lambda o: check(o.n == "\u00bd" and list(o.positional) == ["\u00b2"], "numeric characters"), "-n \u00bd \u00b2")),
        ("nbsp", _mk("-n a\u00a0b", "n:", lambda o: check(o.n == "a\u00a0b", "no-break space"), "-n a\u00a0b")),
        ("positional-backslash", _mk('"a b" -q', "q", lambda o: o.positional.__setitem__(0, "x\\"), "x\\\\ -q")),
        ("backslash", _mk("-n x", "n:", lambda o: setattr(o, "n", "a\\b c"), "-n a\\\\b\\ c")),
    ]
