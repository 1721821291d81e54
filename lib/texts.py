"""Texts meant to upset quoting."""
import decimal
import datetime
from hypothesis import strategies as st

CHARS = "'\"\\;-#/*`%(),=\n\r\t\x00\x1a_ abNn0xZ1\u00e9\u00df\u6f22\U0001f600\u2028"
BITS = ["'", "''", "\\", "\\'", "\\\\", "';", "; DROP TABLE x; --", "--", "-- ", "#", "/*", "*/", "/* x */", "\n", "\r\n", "%s", "%", "%%", "%(a)s", "NULL", "null", "None", "DEFAULT", "''", "\"", "\\\"", "`", "\\n", "\\0", "\\%", "\\_", "\x00", "\u00e9", "\u6f22\u5b57",
        "\U0001f600", "0", "1", "01", "1.0", " ", "  ", "\t", "a", "abc", "x=1", "(", ")", ",", "VALUES", " OR 1=1", "' OR '1'='1", "{}", "{0}", "$1", "\x1a", "\u2028", "\\'; --", "true"]


def text(g, lo=0, hi=6):
    """bits put together, or characters"""
    if g.chance(25):
        return g.draw(st.text(alphabet=CHARS, min_size=lo, max_size=12))
    if g.chance(10):
        return g.draw(st.text(alphabet=st.characters(blacklist_categories=("Cs",)), min_size=lo, max_size=12))
    return "".join(g.pick(BITS) for _ in range(g.int(max(lo, 0), hi)))


def dbvalue(g):
    """["type", text]: a value as the database driver returns it"""
    k = g.pick(["text", "text", "null", "int", "dec", "date", "datetime", "float", "time"])
    if k == "text":
        return ["text", text(g)]
    if k == "null":
        return ["null", ""]
    if k == "int":
        return ["int", str(g.pick([0, 1, -1, 7, 12345678901234567890, 2 ** 31]))]
    if k == "dec":
        return ["dec", g.pick(["1.50", "0.00", "-3.1", "100", "0"])]
    if k == "date":
        return ["date", g.pick(["2020-01-31", "1999-12-01"])]
    if k == "datetime":
        return ["datetime", g.pick(["2020-01-31 10:11:12", "2001-02-03 00:00:00", "2001-02-03 00:00:00.500000"])]
    if k == "float":
        return ["float", g.pick(["0.5", "1.0", "-2.25"])]
    return ["time", g.pick(["10:11:12", "1:02:03"])]


def pyvalue(v):
    k, t = v
    if k == "text":
        return t
    if k == "null":
        return None
    if k == "int":
        return int(t)
    if k == "dec":
        return decimal.Decimal(t)
    if k == "date":
        return datetime.date.fromisoformat(t)
    if k == "datetime":
        return datetime.datetime.fromisoformat(t)
    if k == "float":
        return float(t)
    h, m, s = t.split(":")
    return datetime.timedelta(hours=int(h), minutes=int(m), seconds=int(s))


def near(g, v):
    """a text that is almost this one"""
    return g.pick([v + " ", " " + v, v.swapcase(), v[:-1], v[1:], v + "0", "0" + v, v + ".0", v + "\n", v + v, v.strip(), "'" + v + "'", v.replace("'", "''"), v.replace("\\", ""), v + "\\", v.rstrip("0"), ""])
