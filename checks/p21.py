"""P21: environment files give exactly the written keys and values."""
import io
import json
import os
import re
import shutil
import tempfile
from hypothesis import strategies as st
from boot import Skip, Violation

from mygrations.helpers.dotenv import DotEnvSyntaxError, dotenv

PROPERTY = "P21"
RULE = "at least one setting has quotes, a comment, an escape or a repeated key, or the text has to be refused"
ASSUMPTIONS = ["no backslash stands right before a closing quote, keys hold no comment marker"]
QUICK, THOROUGH = 3000, 150000
ROOT = None

KEYS = ["DB_HOST", "DB_PASSWORD", "a", "key.with.dots", "two words", "KEY-2", "\u00e9t\u00e9", "x1", "'k'", "[k]", "a/b", "\\k", "export A", "{", "}", "db_host"]
BITS = ["a", "b", "secret", " ", "  ", "=", ":", "#", "//", ";", "'", '"', "\\", "\\'", '\\"', "\\n", "\\\\", ",", "{", "}", "\u00e9", "\u6f22", "%s", "$X", "${X}", "1", "0", "null", "true", "\t", "--", "/*", "`", "@", "://", "?a=b"]
MARKS = ["#", "#", "#", "//", ";", "--", "%%"]


def setup():
    global ROOT
    ROOT = tempfile.mkdtemp(prefix="p21_")
    os.chdir(ROOT)


def teardown():
    os.chdir("/")
    shutil.rmtree(ROOT, ignore_errors=True)


def gen(g, tier):
    kind = g.weighted([(6, "lines"), (5, "soup"), (1, "json"), (1, "other")])
    mark = g.pick(MARKS)
    how = g.pick(["text", "file", "open", "stringio", "bytesio", "binary"])
    if kind == "json":
        d = g.draw(st.dictionaries(st.text(max_size=6), st.recursive(st.none() | st.booleans() | st.integers(-99, 99) | st.text(max_size=6), lambda x: st.lists(x, max_size=2) | st.dictionaries(st.text(max_size=3), x, max_size=2), max_leaves=4), max_size=4))
        text = g.pick(["", "\n", "  "]) + json.dumps(d, indent=g.pick([None, 2]), ensure_ascii=g.chance(50)) + g.pick(["", "\n"])
        return {"kind": kind, "text": text, "how": how, "mark": mark, "want": d}
    if kind == "other":
        return {"kind": kind, "text": g.pick(["[1, 2]", "\"text\"", "12", "null", "[]", "[{\"a\": 1}]", "true", "", "\n \n", "nothing here", "# only a comment", "\ufeffA=1"][:11]), "how": g.pick(["text", "file", "open", "stringio", "bytesio", "binary", "int", "none", "list"]), "mark": "#"}
    if kind == "soup":
        n = g.int(1, 4)
        lines = []
        for _ in range(n):
            b = "".join(g.pick(BITS) for _ in range(g.int(0, 7)))
            if g.chance(70):
                b = g.pick(["A", "b c", "\u00e9", " k"]) + g.pick(["=", ":", " = ", ": "]) + b
            lines.append(b)
        return {"kind": kind, "text": "\n".join(lines), "how": how, "mark": mark}
    want, lines, odd = [], [], False
    for _ in range(g.int(0, 6)):
        x = g.weighted([(8, "set"), (2, "blank"), (2, "comment"), (1, "bad")])
        pad = lambda: g.pick(["", "", " ", "\t", "  "])
        if x == "blank":
            lines.append(g.pick(["", " ", "\t", "\t "]))
        elif x == "comment":
            lines.append(pad() + mark + g.pick(["", " a note", "A=1", " 'it's\"", mark, " A: \"x\""]))
        elif x == "bad":
            q = g.pick(["'", '"'])
            lines.append(g.pick(["nothing", "A=" + q + "x", "A=x" + q, "A=" + q + "x" + q + " y", "A=" + q + "x" + q + ";;", "=x", ": x", " = x", "A=x" + q + "y" + q, "A=" + q + "x" + q + q, "A=" + q, "A=" + q + "x\\" + q, "A=it's", "A=" + q + "x" + q + ";y", "A = " + q + "a" + q + " = b"]))
            lines[-1] = lines[-1].replace(mark, "x") if mark != ";" else "nothing"
            want.append(None)
        else:
            k = g.pick([k for k in KEYS if mark not in k])
            v = "".join(g.pick(BITS) for _ in range(g.int(0, 4)))
            style = g.pick(["'", '"', "none", "empty"])
            tail = g.pick(["", "", " ", "\t", mark, " " + mark, " " + mark + " note's \"x\" = 1", mark + "; 'x"])
            if style == "empty":
                v, text = "", g.pick(["", "  "])
            elif style == "none":
                v = v.replace("'", "").replace('"', "").replace(mark, "").strip()
                while mark in v:
                    v = v.replace(mark, "")
                v = v.strip()
                text = v
            else:
                text = v.replace(style, "\\" + style)
                if text.endswith("\\") or ("\\\\" + style) in text:
                    v = v.replace("\\", "/")
                    text = v.replace(style, "\\" + style)
                text = style + text + style + (g.pick(["", "", ";", " ;", ";"]) if mark != ";" else "")
            lines.append(pad() + k + pad() + g.pick(["=", ":"]) + pad() + text + tail)
            want.append([k, v])
    return {"kind": kind, "text": "\n".join(lines) + g.pick(["", "\n"]), "how": how, "mark": mark, "want": want}


def reference(text, mark):
    """the documented syntax, once more: dict, None (refused), or Skip where it says nothing"""
    try:
        d = json.loads(text)
        if isinstance(d, dict):
            return d
    except ValueError:
        pass
    out = {}
    for line in text.split("\n"):
        line = line.strip()
        if not line or line.startswith(mark):
            continue
        m = re.search("[=:]", line)
        if not m or m.start() == 0:
            return None
        k, v = line[:m.start()].strip(), line[m.end():].strip()
        if mark in line[:m.start()]:
            raise Skip("comment marker in a key")
        if v[:1] in ("'", '"') and v:
            q = v[0]
            i = 1
            while i < len(v) and not (v[i] == q and v[i - 1] != "\\" or v[i] == q and i == 1):
                i += 1
            if "\\\\" + q in v:
                raise Skip("two backslashes before a quote")
            if i == len(v):
                return None
            rest = v[i + 1:]
            rest = rest[:rest.index(mark)] if mark in rest else rest
            if rest.strip() not in ("", ";"):
                return None
            out[k] = v[1:i].replace("\\" + q, q)
        else:
            v = v[:v.index(mark)].strip() if mark in v else v
            if "'" in v or '"' in v:
                return None
            out[k] = v
    return out


def read(case):
    text, how, mark = case["text"], case["how"], case["mark"]
    path = os.path.join(ROOT, "conf.env")
    extra = {} if mark == "#" else {"comment": mark}
    if how in ("file", "open", "binary"):
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)
    try:
        if how == "file":
            return dotenv(path, **extra)
        if how == "open":
            with open(path, encoding="utf-8", newline="") as f:
                return dotenv(f, **extra)
        if how == "binary":
            with open(path, "rb") as f:
                return dotenv(f, **extra)
        if how == "stringio":
            return dotenv(io.StringIO(text), **extra)
        if how == "bytesio":
            return dotenv(io.BytesIO(text.encode("utf-8")), **extra)
        return dotenv(text, **extra)
    finally:
        if os.path.exists(path):
            os.unlink(path)


def run(case, ev):
    kind, how = case["kind"], case["how"]
    ev.label(kind)
    ev.label(how)
    if kind == "other" and how in ("int", "list"):
        try:
            got = dotenv(12 if how == "int" else ["A=1"])
        except ValueError:
            ev.nontrivial()
            return
        raise Violation("read from a %s: %r" % (how, got))
    if kind == "other" and how == "none":
        if dict(dotenv()) != {} or dict(dotenv(None)) != {}:
            raise Violation("settings from nothing")
        return
    text = case["text"]
    if kind == "lines":
        want = None if None in case["want"] else dict(map(tuple, case["want"]))
        check = reference(text, case["mark"])
        if check != want:
            raise AssertionError("generator and reference disagree on %r %r: %r, %r" % (text, case["mark"], want, check))
    elif kind == "json":
        want = case["want"]
    else:
        want = reference(text, case["mark"])
    if want is None or any(c in text for c in "'\"\\") or case["mark"] in text:
        ev.nontrivial()
    if want is None:
        ev.label("refused")
    try:
        got = read(case)
    except DotEnvSyntaxError as e:
        if want is not None:
            raise Violation("%r is refused: %s; it says %r" % (text, e, want))
        return
    if want is None:
        raise Violation("%r is read as %r instead of being refused" % (text, dict(got)))
    if dict(got) != want or list(map(type, got.values())) != list(map(type, {k: want[k] for k in got}.values())):
        raise Violation("%r is read as %r instead of %r (comment marker %r)" % (text, dict(got), want, case["mark"]))
