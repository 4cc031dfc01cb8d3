"""Helpers shared by the property modules."""
import os
from pathlib import Path

from vf.core import Skip, Violation, check  # noqa: F401
from vf.gen import WORDS, generate  # noqa: F401

CORPUS = Path(__file__).resolve().parent.parent / "corpus"


def enc(text):
    return text.encode("utf8", "surrogateescape")


def split(text):
    """(lines, trailing newline) of a text; the only line separator is a newline."""
    lines = text.split("\n")
    if text.endswith("\n"):
        lines.pop()
        return lines, True
    return lines, False


def join(lines, nl=True):
    return "\n".join(lines) + ("\n" if nl else "")


def corpus(ctx):
    files = sorted(CORPUS.glob("*.spec"))
    return ctx.rng.choice(files)


def scratch_spec(ctx, text, name="t.spec", sub="d"):
    d = ctx.tmp / sub
    d.mkdir(exist_ok=True)
    p = d / name
    p.write_bytes(enc(text))
    return p


def accepted(ctx, text, macros=None, sourcedir=None, **kw):
    """Answer of RPM itself; skips the case if RPM doesn't accept the content."""
    r = ctx.oracle.ask(text, macros, sourcedir, **kw)
    if not r["ok"]:
        raise Skip("content rejected by RPM")
    return r


def open_doc(ctx, doc, sub="d", oracle=False, **kw):
    """Writes a generated document and opens it with the library."""
    from specfile import Specfile

    text = doc.text()
    ans = accepted(ctx, text, doc.macros, ctx.tmp / sub) if oracle is False else oracle
    path = scratch_spec(ctx, text, sub=sub)
    spec = Specfile(path, macros=list(doc.macros), **kw)
    check(str(spec) == text, "content of a freshly opened spec differs from the file",
          file=text, content=str(spec))
    ctx.log("spec:", repr(text) if len(text) < 1500 else repr(text[:1500]) + "...")
    return spec, path, ans


def hostile_lines(rng, lines):
    """Textual mutations that are likely to be harmless to RPM but awkward for a parser."""
    lines = list(lines)
    for _ in range(rng.randint(1, 8)):
        if not lines:
            break
        i = rng.randrange(len(lines))
        k = rng.random()
        if k < 0.15:
            lines[i] = lines[i] + rng.choice([" ", "\t", "  \t", " \x0b", "\x0c", "\u00a0", "\u3000", "\x1f"])
        elif k < 0.3:
            lines.insert(i, rng.choice(["", " ", "\t", "#", "# " + rng.choice(WORDS), "  # indented", "%dnl x", "%dnl x: y",
                                        "#\udcff\udcfe", "# " + rng.choice(WORDS) + "\x1c", "# a\x85b", "# c\u2028d"]))
        elif k < 0.4:
            lines[i] = lines[i].replace(" ", rng.choice(["  ", "\t", " "]), 1)
        elif k < 0.5:
            del lines[i]
        elif k < 0.6:
            j = rng.randrange(len(lines))
            lines.insert(j, lines[i])
        elif k < 0.68:
            lines[i] = "%{!?undefq:" + lines[i] + "}" + rng.choice(["", "", " "])
        elif k < 0.76:
            lines[i] = rng.choice([" ", "\t", "  "]) + lines[i]
        elif k < 0.84:
            lines[i:i] = ["%if " + rng.choice(["0", "1", "0%{?undefq}"]), lines[i], rng.choice(["%endif", " %endif", "%endif "])]
        elif k < 0.9:
            lines.insert(i, rng.choice(["%global hm %{expand:\n a\n}", "%global hm2 x\\\n y", "%define hm3 \\\n%if 0\\\nz",
                                        "%global hm4() %{1}", "#global hm5 z", "%dnl %global hm6 q", "#%%define hm7 %{", "%dnl# %%global hm8 x", "%dnlx %global hm9 y"]))
        else:
            j = rng.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
    # insertions may contain newlines
    return "\n".join(lines).split("\n")


def snapshot_tree(root):
    """Everything observable about a directory tree."""
    out = {}
    for r, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(r, n)
            st = os.lstat(p)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ("link", os.readlink(p), st.st_ino)
            elif os.path.isdir(p):
                out[rel] = ("dir", st.st_mode, st.st_ino)
            else:
                with open(p, "rb") as f:
                    out[rel] = ("file", f.read(), st.st_mode, st.st_ino, st.st_mtime_ns, st.st_size)
    return out


def line_diff(old, new):
    """Minimal textual description of a difference, for witnesses."""
    import difflib

    return "\n".join(difflib.unified_diff(old, new, "expected", "actual", lineterm="", n=2))


def check_lines(actual, expected, msg, **detail):
    if actual != expected:
        raise Violation(msg + "\n" + line_diff(expected, actual) +
                        ("" if not detail else "\n" + "\n".join(f"  {k}: {v!r}" for k, v in detail.items())))
