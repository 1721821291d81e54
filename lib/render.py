"""Writes a model schema as SQL text. Style 0 is one canonical spelling; any other
number selects, pseudo-randomly, one of the equivalent spellings the documented
grammar allows (all of them valid MySQL with the same meaning)."""
import random
import re
import model
from sqllex import RESERVED


class S:
    """spelling choices"""

    def __init__(self, seed, level=2):
        self.seed = seed
        self.r = random.Random(seed * 7919 + 13)
        self.level = 0 if seed == 0 else level  # 1: mild, 2: full

    def chance(self, p, level=1):
        return self.level >= level and self.r.random() < p

    def kw(self, w):
        if self.level >= 1:
            n = self.r.random()
            if n < 0.35:
                return w.lower()
            if n < 0.42 and self.level >= 2:
                return "".join(x.upper() if self.r.random() < 0.5 else x.lower() for x in w)
        return w

    def sp(self):
        if self.level >= 2:
            return self.r.choice([" ", " ", " ", "  ", "\n", "\t", " \n  ", "\r\n"])
        return " "

    def osp(self):
        """white space where none is needed"""
        if self.level >= 2:
            return self.r.choice(["", "", "", " ", "\n", "  "])
        return ""

    def psp(self):
        """white space before a parenthesis"""
        return self.r.choice(["", "", " ", "\n", "  "]) if self.level >= 2 else " "

    def name(self, n):
        if self.level >= 1 and n.lower() not in RESERVED and re.fullmatch(r"[A-Za-z_]\w*", n, re.A) and self.r.random() < 0.4:
            return n
        return "`%s`" % n


def quote(v):
    return "'" + v.replace("\\", "\\\\").replace("'", "\\'") + "'"


def words(s, text):
    return s.sp().join(s.kw(w) for w in text.split(" "))


def col_sql(s, c, inline_pk=False):
    ty = c["type"]
    out = [s.name(c["name"])]
    ln = c["len"]
    tw = ty.upper()
    isbool = ty == "tinyint" and ln == "1" and not c["unsigned"]
    if isbool and s.chance(0.4):
        tw, ln, isbool = s.r.choice(["BOOLEAN", "BOOL"]), None, "b"
    elif ty == "int" and s.chance(0.3):
        tw = "INTEGER"
    elif inline_pk:
        ln = None
    t = s.kw(tw)
    if c["enum"]:
        t += "(" + ("," + s.osp()).join(quote(e) for e in c["enum"]) + ")"
    elif ln is not None:
        if "," in ln:
            a, b = ln.split(",")
            t += "(%s%s,%s%s)" % (a, s.osp(), s.osp(), b)
        else:
            t += "(%s)" % ln
    out.append(t)
    if c["unsigned"]:
        out.append(s.kw("UNSIGNED"))
    plain = ty in ("char", "varchar") or not c["enum"]
    if not c["enum"] and (c["cs"] or c["coll"]):
        if c["cs"]:
            out.append(words(s, "CHARACTER SET") + " " + (c["cs"] if s.chance(0.5) else "'%s'" % c["cs"]))
        if c["coll"]:
            out.append(s.kw("COLLATE") + " " + (c["coll"] if s.chance(0.5) else "'%s'" % c["coll"]))
    if c["enum"] and (c["cs"] or c["coll"]):
        if c["cs"]:
            out.append(words(s, "CHARACTER SET") + " " + c["cs"])
        if c["coll"]:
            out.append(s.kw("COLLATE") + " " + c["coll"])
    nul, pri = [], []
    if not c["null"]:
        if not inline_pk or s.chance(0.5):
            nul = [words(s, "NOT NULL")]
    elif s.chance(0.25) or (ty == "timestamp" and s.level == 0):
        nul = [s.kw("NULL")]
    if inline_pk:
        pri = [words(s, "PRIMARY KEY")]
    # the order of clauses is free where no length was given
    late = s.r.choice([0, 0, 1, 2]) if ln is None and not c["enum"] and s.level >= 2 else 0
    out += (nul + pri, nul, [])[late]
    collated = None
    if c["coll"] and s.chance(0.3, 2):
        # COLLATE may come later, too
        collated = out.pop(next(i for i, x in enumerate(out) if x.lower().startswith("collate")))
        if s.chance(0.5, 2):
            out.append(collated)
            collated = None
    d = c["default"]
    if d is not None:
        if d == "CURRENT_TIMESTAMP" and ty in ("datetime", "timestamp"):
            out.append(s.kw("DEFAULT") + " " + s.kw("CURRENT_TIMESTAMP"))
        elif ty in model.INTS + ["decimal", "float", "double", "year"]:
            if isbool == "b" and s.chance(0.5):
                out.append(s.kw("DEFAULT") + " " + s.kw("TRUE" if d == "1" else "FALSE"))
            elif s.chance(0.4):
                out.append(s.kw("DEFAULT") + " '%s'" % d)
            else:
                out.append(s.kw("DEFAULT") + " " + d)
        else:
            out.append(s.kw("DEFAULT") + " " + quote(d))
    elif c["null"] and not c["ai"] and ty not in model.TEXTS and s.chance(0.4):
        out.append(s.kw("DEFAULT") + " " + s.kw("NULL"))
    out += ([], pri, nul + pri)[late]
    if collated:
        out.append(collated)
    if c["ai"]:
        out.append(s.kw("AUTO_INCREMENT"))
    return s.sp().join(out)


def cols_sql(s, cols):
    return "(" + s.osp() + ("," + s.osp()).join(s.name(c) for c in cols) + s.osp() + ")"


def auto_name(column, taken):
    """name of an index without one"""
    name, n = column, 2
    while name.lower() in taken:
        name = "%s_%d" % (column, n)
        n += 1
    return name


def key_sql(s, t, k, written=()):
    if k["kind"] == "PRIMARY":
        return words(s, "PRIMARY KEY") + s.psp() + cols_sql(s, k["cols"])
    if k["kind"] == "UNIQUE":
        head = s.kw("UNIQUE")
        n = 1 if s.level == 0 else s.r.randint(0, 2)
        if n:
            head += " " + s.kw("KEY" if n == 1 else "INDEX")
        if k["name"] == auto_name(k["cols"][0], written) and s.chance(0.5):
            return head + s.psp() + cols_sql(s, k["cols"])
        return head + s.sp() + (s.name(k["name"]) if n else "`%s`" % k["name"]) + s.psp() + cols_sql(s, k["cols"])
    return s.kw("INDEX" if s.chance(0.4) else "KEY") + s.sp() + s.name(k["name"]) + s.psp() + cols_sql(s, k["cols"])


def fk_sql(s, t, f):
    bare = f.get("bare") or f["name"] == ("%s_%s_%s_fk" % (t["name"], f["col"], f["rtable"]))[:64] and s.chance(0.6)
    out = [] if bare else [s.kw("CONSTRAINT"), s.name(f["name"])]
    out.append(s.kw("FOREIGN") + " " + s.kw("KEY") + s.psp() + "(" + s.osp() + s.name(f["col"]) + s.osp() + ")")
    out.append(s.kw("REFERENCES") + s.sp() + s.name(f["rtable"]) + s.psp() + "(" + s.osp() + s.name(f["rcol"]) + s.osp() + ")")
    for w, a in (("DELETE", f["del"]), ("UPDATE", f["upd"])):
        if a == "RESTRICT" and s.chance(0.5):
            continue
        out.append(words(s, "ON %s %s" % (w, a)))
    return s.sp().join(out)


COMMENTS = ["-- a comment\n", "# another one\n", "/* block */ ", "-- CREATE TABLE `x` (id int);\n", "# it's; a (trap)\n", "--\n", "/* multi\nline; ' */\n", "-- it's\n"]


def comment(s, p=0.15):
    return s.r.choice(COMMENTS) if s.chance(p, 2) else ""


def create_sql(t, s, comments=True):
    defs = []
    pk = next((k for k in t["keys"] if k["kind"] == "PRIMARY"), None)
    inline = None
    if pk and len(pk["cols"]) == 1:
        c = model.col(t, pk["cols"][0])
        if c["type"] in model.INTS + ["date", "bigint"] and not c["enum"] and c["len"] is None and c["default"] is None and s.chance(0.35):
            inline = c["name"]
    for c in t["cols"]:
        defs.append(col_sql(s, c, c["name"] == inline))
    rest = [(k, None) for k in t["keys"] if not (inline and k is pk) and not k.get("implied")] + [(None, f) for f in t["fks"]]
    if s.chance(0.2, 2):
        s.r.shuffle(rest)
    written = set()
    for k, f in rest:
        defs.append(key_sql(s, t, k, written) if k else fk_sql(s, t, f))
        if k and k["name"]:
            written.add(k["name"].lower())
    nl = "\n  " if s.level else "\n  "
    body = nl
    for i, d in enumerate(defs):
        if comments:
            body += comment(s, 0.08)
        body += d + ("," if i + 1 < len(defs) else "") + (nl if i + 1 < len(defs) else "\n")
        if comments and s.chance(0.05, 2):
            body += "-- %d's note; (x\n  " % i
    head = words(s, "CREATE TABLE")
    if s.chance(0.2):
        head += " " + words(s, "IF NOT EXISTS")
    opts = ""
    for n, v in t["opts"]:
        n = s.sp().join(s.kw(w) for w in n.split(" ")) if s.chance(0.3) else n
        eq = s.osp() + "=" + s.osp() if s.chance(0.3, 2) else "="
        opts += ("," if opts and s.chance(0.2, 2) else "") + (s.sp() if opts else s.psp()) + n + eq + v
    end = ";" if not s.chance(0.1, 2) else s.osp() + ";"
    return "%s%s%s%s(%s)%s%s" % (head, s.sp(), s.name(t["name"]), s.psp(), body, opts, end)


def insert_sql(s, tname, cols, rows):
    out = words(s, "INSERT INTO") + s.sp() + s.name(tname) + s.psp() + cols_sql(s, cols) + s.psp() + s.kw("VALUES") + s.psp()
    gs = []
    for r in rows:
        vs = []
        for v in r:
            if v is None:
                vs.append(s.kw("NULL"))
            elif v.isdecimal() and v.isascii() and (v == "0" or v[0] != "0") and s.chance(0.6):
                vs.append(v)
            else:
                vs.append(quote(v))
        gs.append("(" + s.osp() + ("," + s.osp()).join(vs) + s.osp() + ")")
    return out + ("," + s.sp()).join(gs) + ";"


def rows_sql(s, t):
    """INSERT commands for the declared rows of a table"""
    out = []
    rows = t.get("rows") or []
    i = 0
    while i < len(rows):
        cols = list(rows[i])
        n = 1
        while i + n < len(rows) and list(rows[i + n]) == cols and not s.chance(0.4):
            n += 1
        out.append(insert_sql(s, t["name"], cols, [[r[c] for c in cols] for r in rows[i:i + n]]))
        i += n
    return out


def commands(sch, seed=0, level=2):
    s = S(seed, level)
    cr = [create_sql(t, s) for t in sch["tables"]]
    ins = []
    for t in sch["tables"]:
        ins += rows_sql(s, t)
    return cr, ins


def schema_sql(sch, seed=0, level=2):
    """one string"""
    s = S(seed, level)
    out = []
    for t in sch["tables"]:
        out.append(comment(s) + create_sql(t, s))
        for x in rows_sql(s, t):
            out.append(comment(s) + x)
    return "\n\n".join(out) + "\n"
