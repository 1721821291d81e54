"""P15: invalid tables, columns and keys are reported, valid ones are not."""
import re
import model
import render
from boot import Violation

from mygrations.core import commands
from mygrations.formats.mysql.file_reader.database import Database as FileDatabase

PROPERTY = "P15"
RULE = "some rule is broken, or some column has to give a warning"
QUICK, THOROUGH = 800, 30000

INTS = ["INT", "INTEGER", "TINYINT", "SMALLINT", "MEDIUMINT", "BIGINT"]
FRACTION = ["DECIMAL", "NUMERIC", "FLOAT", "DOUBLE"]
CHARS = ["CHAR", "VARCHAR"]
BINS = ["BINARY", "VARBINARY"]
TEXTS = ["TINYTEXT", "TEXT", "MEDIUMTEXT", "LONGTEXT", "TINYBLOB", "BLOB", "MEDIUMBLOB", "LONGBLOB", "JSON"]
DATES = ["DATE", "DATETIME", "TIMESTAMP", "YEAR", "TIME"]
LISTS = ["ENUM", "SET"]
NUMERIC = INTS + ["BIT"] + FRACTION
ALL = NUMERIC + CHARS + BINS + TEXTS + DATES + LISTS


def gen_col(g, name, wild):
    """a column with whatever attributes; wild: percentage for each attribute which may not fit"""
    ty = g.pick(ALL)
    c = dict(name=name, type=ty, len=None, unsigned=False, cs=None, coll=None, null=g.chance(60), default=None, quoted=True, ai=False, values=None, pk=False)
    odd = lambda: g.chance(wild)
    if ty in LISTS:
        c["values"] = g.some(["a", "b", "c", "two words", "it's", "x-y"], 1, 4)
        if odd():
            c["values"] = None
    elif odd():
        c["values"] = g.some(["a", "b", "c"], 1, 2)
    if c["values"] is None:
        if ty in ("DECIMAL", "NUMERIC") and g.chance(60):
            c["len"] = g.pick(["10,2", "5", "8,4"])
        elif ty in CHARS + BINS and (g.chance(90) or ty in ("VARCHAR", "VARBINARY")):
            c["len"] = g.pick(["20", "255", "1"])
        elif ty in INTS and g.chance(40):
            c["len"] = g.pick(["10", "11", "1"])
        elif ty == "YEAR" and g.chance(30):
            c["len"] = "4"
        if odd():
            c["len"] = g.pick(["10", "10,2", "3"] if ty not in LISTS else ["10"]) if ty not in CHARS + BINS + INTS else g.pick(["10,2", "3,1"])
    # (what the grammar has no place for is refused as a whole, see P13)
    if ty in INTS + FRACTION and c["values"] is None and g.chance(30):
        c["unsigned"] = True
    elif ty not in NUMERIC and odd() and c["values"] is None:
        c["unsigned"] = True
    if c["unsigned"]:
        pass
    elif ty in CHARS + LISTS and g.chance(25) or odd():
        k = g.int(0, 2)
        c["cs"] = g.pick(["latin1", "utf8mb4"]) if k != 1 else None
        c["coll"] = (c["cs"] or "utf8mb4") + "_bin" if k else None
    elif ty in BINS and g.chance(15):
        c["cs"], c["coll"] = g.pick([("binary", None), (None, "binary"), ("binary", "binary")])
    simple = c["values"] is None and (c["len"] is None or "," not in c["len"])
    if simple and odd() and (c["cs"] or c["coll"]) is None:
        c["ai"] = True
    elif g.chance(65) or odd():
        kind = {t: n for n, ts in (("int", INTS), ("bit", ["BIT"]), ("num", FRACTION), ("text", CHARS + BINS), ("list", LISTS), ("date", DATES), ("none", TEXTS)) for t in ts}[ty]
        if odd():
            bad = {"int": ["abc", "1x", "", "1.5", "0.0", "nan", "1_000", "12a", "CURRENT_TIMESTAMP", "é"], "bit": ["2", "9", "x", "0.5", "-1"], "num": ["abc", "", "1.2.3", "inf", "nan", "--1", "1,5"], "list": ["d", "A", "", "a,", "two", "'"], "none": ["", "x", "0", "{}"]}
            c["default"] = g.pick(bad.get(kind, ["x"]))
        else:
            good = {"int": ["0", "1", "12", "7"], "bit": ["0", "1"], "num": ["0", "1", "1.50", "0.1", "20.25"], "text": ["", "a", "it's", "0", "some text", "NULL"], "date": ["2020-01-02", "2001-12-31"], "list": [g.pick(c["values"])] if c["values"] else [None], "none": [None]}
            c["default"] = g.pick(good[kind])
            if kind == "list" and ty == "SET" and c["values"] and g.chance(30):
                c["default"] = g.pick(["", ",".join(c["values"])])
            if c["default"] and kind in ("int", "num") and not c["unsigned"] and g.chance(20):
                c["default"] = "-" + c["default"]
        if c["default"] is not None and re.fullmatch(r"-?[0-9]+(\.[0-9]+)?", c["default"]) and kind not in ("text", "none", "list"):
            c["quoted"] = g.chance(40)
    return c


def sql_col(c):
    out = "`%s` %s" % (c["name"], c["type"])
    if c["values"] is not None:
        out += "(" + ",".join(render.quote(v) for v in c["values"]) + ")"
    elif c["len"]:
        out += "(%s)" % c["len"]
    if c["unsigned"]:
        out += " UNSIGNED"
    if c["cs"]:
        out += " CHARACTER SET " + c["cs"]
    if c["coll"]:
        out += " COLLATE " + c["coll"]
    out += "" if c["null"] else " NOT NULL"
    if c["default"] is not None:
        out += " DEFAULT " + (render.quote(c["default"]) if c["quoted"] else c["default"])
    return out + (" AUTO_INCREMENT" if c["ai"] else "")


def column_faults(c):
    ty, out = c["type"], []
    d = c["default"]
    if d is not None:
        number = re.fullmatch(r"[+-]?[0-9]+(\.[0-9]+)?", d, re.A)
        if ty in NUMERIC and not number:
            out.append("default is no number")
        elif ty in INTS + ["BIT"] and "." in d:
            out.append("default is no integer")
        elif ty == "BIT" and d not in ("0", "1"):
            out.append("default is no bit")
        elif ty in TEXTS:
            out.append("default of a text type")
        elif ty in LISTS and not (ty == "SET" and d == ""):
            if any(x not in (c["values"] or []) for x in (d.split(",") if ty == "SET" else [d])):
                out.append("default is not in the list")
    if c["values"] is not None and ty not in LISTS:
        out.append("list of values")
    if c["values"] is None and ty in LISTS:
        out.append("no list of values")
    ln = c["len"] if c["values"] is None else None
    if ln:
        if ty in ["FLOAT", "DOUBLE", "BIT"] + TEXTS + LISTS + DATES and (ty, ln) != ("YEAR", "4"):
            out.append("length")
        elif "," in ln and ty not in FRACTION:
            out.append("decimals in the length")
    if ty in NUMERIC + DATES:
        out += (["character set"] if c["cs"] else []) + (["collation"] if c["coll"] else [])
    elif ty in TEXTS and (c["cs"] or c["coll"]):
        out.append("character set or collation")
    elif ty in BINS and any(x not in (None, "binary") for x in (c["cs"], c["coll"])):
        out.append("character set of binary")
    if c["unsigned"] and ty not in NUMERIC:
        out.append("unsigned")
    if c["ai"] and ty not in INTS:
        out.append("auto increment")
    return out


def gen(g, tier):
    s = {"tables": []}
    for i in range(g.int(1, 3)):
        t = {"name": "tq%d" % (i + 1), "cols": [], "keys": [], "inline": None}
        wild = g.pick([0, 0, 3, 10, 25])
        if g.chance(75):
            c = dict(name="id%d" % (i + 1), type=g.pick(["INT", "BIGINT", "SMALLINT"]), len=None, unsigned=g.chance(50), cs=None, coll=None, null=g.chance(30), default=None, quoted=False, ai=g.chance(70), values=None, pk=True)
            t["cols"].append(c)
            t["keys"].append(["PRIMARY", None, [c["name"]] + ([] if g.chance(85) else ["cq%d_1" % (i + 1)])])
        for j in range(g.int(0 if t["cols"] else 1, 5)):
            t["cols"].append(gen_col(g, "cq%d_%d" % (i + 1, j + 1), wild))
        names = [c["name"] for c in t["cols"]]
        for k in t["keys"]:
            k[2] = [n for n in k[2] if n in names]
        for j in range(g.int(0, 3)):
            ks = g.some(names, 1, 3)
            t["keys"].append([g.pick(["INDEX", "UNIQUE"]), "kq%d_%d" % (i + 1, j + 1), ks])
        for _ in range(g.weighted([(5, 0), (4, 1), (1, 2)])):
            table_fault(g, t, i + 1)
        if not t["cols"] and not t["keys"]:
            t["keys"].append(["INDEX", "kq%d_n" % (i + 1), ["gone"]])
        if g.chance(30) and t["cols"]:
            t["cols"].insert(g.int(0, len(t["cols"])), t["cols"].pop())
        if g.chance(30):
            t["keys"].insert(0, t["keys"].pop()) if t["keys"] else None
        s["tables"].append(t)
    s["parts"] = g.chance(40)
    return s


def table_fault(g, t, i):
    op = g.pick(["ai", "nopk", "pkfirst", "pk2", "inline", "missing", "missing", "long", "nocols"])
    names = [c["name"] for c in t["cols"]]
    if op == "ai" and names:
        c = g.pick(t["cols"])
        if c["values"] is None and not c["cs"] and not c["coll"] and (c["len"] is None or c["type"] in NUMERIC and "," not in c["len"]):
            c["ai"], c["default"] = True, None
    elif op == "nopk":
        t["keys"] = [k for k in t["keys"] if k[0] != "PRIMARY"]
    elif op == "pkfirst":
        for k in t["keys"]:
            if k[0] == "PRIMARY" and len(names) > 1:
                k[2] = [g.pick([n for n in names if n not in k[2]] or names)] + k[2]
                k[2] = list(dict.fromkeys(k[2]))
    elif op == "pk2" and names:
        t["keys"].append(["PRIMARY", None, g.some(names, 1, 2)])
    elif op == "inline" and names:
        c = g.pick(t["cols"])
        if c["values"] is None and c["len"] is None and c["default"] is None and not c["unsigned"] and not c["cs"] and not c["coll"] and c["type"] in INTS:
            t["inline"] = c["name"]
    elif op == "missing":
        miss = "gone%d" % i
        if t["keys"] and g.chance(60):
            k = g.pick(t["keys"])
            k[2].insert(g.int(0, len(k[2])), miss)
            k[2] = list(dict.fromkeys(k[2]))
        else:
            t["keys"].append([g.pick(["INDEX", "UNIQUE", "PRIMARY"]), "kq%d_m%d" % (i, len(t["keys"])), [miss]])
            if t["keys"][-1][0] == "PRIMARY":
                t["keys"][-1][1] = None
    elif op == "long" and names:
        n = g.pick([64, 64, 65, 66, 200])
        t["keys"].append([g.pick(["INDEX", "UNIQUE"]), ("kq%d_" % i).ljust(n, "x"), g.some(names, 1, 2)])
        t["keys"] = list({k[1] or id(k): k for k in t["keys"]}.values())
    elif op == "nocols" and t["keys"]:
        t["cols"] = []


def table_sql(t):
    defs = []
    for c in t["cols"]:
        d = sql_col(c)
        if c["name"] == t["inline"]:
            d = d.replace(" AUTO_INCREMENT", "") + " PRIMARY KEY" + (" AUTO_INCREMENT" if c["ai"] else "")
        defs.append(d)
    for kind, name, cols in t["keys"]:
        w = {"PRIMARY": "PRIMARY KEY", "INDEX": "KEY `%s`" % name, "UNIQUE": "UNIQUE KEY `%s`" % name}[kind]
        defs.append("%s (%s)" % (w, ",".join("`%s`" % c for c in cols)))
    return "CREATE TABLE `%s` (\n  %s\n);" % (t["name"], ",\n  ".join(defs))


def table_faults(t):
    """[(what is wrong, words a report has to contain besides the name of the table)]"""
    out = []
    names = [c["name"] for c in t["cols"]]
    pks = [[t["inline"]]] if t["inline"] in names else []
    pks += [k[2] for k in t["keys"] if k[0] == "PRIMARY"]
    if not names:
        out.append(("no columns", []))
    if len(pks) > 1:
        out.append(("several primary keys", []))
    ai = [c["name"] for c in t["cols"] if c["ai"]]
    if len(ai) > 1:
        out.append(("several auto increments", []))
    elif ai and not pks:
        out.append(("auto increment without primary key", []))
    elif ai and len(pks) == 1 and pks[0][0] != ai[0]:
        out.append(("auto increment is not first in the primary key", [ai[0]]))
    for kind, name, cols in t["keys"]:
        for n in cols:
            if n not in names:
                out.append(("index on a missing column", [n] + ([name] if name else [])))
        if name and len(name) > 64:
            out.append(("long key name", [name]))
    return out


def says(e, words):
    return all(re.search(r"(?<!\w)%s(?!\w)" % re.escape(w), e) for w in words)


def run(case, ev):
    tables = case["tables"]
    parts = [table_sql(t) for t in tables]
    sql = "\n".join(parts)
    source = parts if case["parts"] else sql
    db = FileDatabase(source)
    errors, warnings = list(db.errors), list(db.warnings)
    fine = True
    explained = set()
    for t in tables:
        n = t["name"]
        tf = table_faults(t)
        for what, words in tf:
            fine = False
            ev.label(what)
            ev.nontrivial()
            hits = [e for e in errors if says(e, [n] + words)]
            explained.update(hits)
            if not hits:
                raise Violation("%s in table %s is not reported: %r\n%s" % (what, n, errors[:5], sql))
        # several faults take several reports
        every = set((w, tuple(x)) for w, x in tf) | set((w, c["name"]) for c in t["cols"] for w in column_faults(c))
        own = set(e for e in errors if says(e, [n]))
        if len(own) < len(every):
            raise Violation("table %s has faults %r, but the reports are %r\n%s" % (n, sorted(every, key=str), sorted(own), sql))
        pk = [x for k in t["keys"] if k[0] == "PRIMARY" for x in k[2]] + [t["inline"]]
        for c in t["cols"]:
            cf = column_faults(c)
            mine = [e for e in errors if says(e, [n, c["name"]])]
            for w in cf:
                fine = False
                ev.label("column: " + w)
                ev.nontrivial()
            if len(set(mine)) < len(cf):
                raise Violation("column %s of table %s has faults %r, but the reports are %r\n%s" % (c["name"], n, cf, mine, sql))
            if cf:
                explained.update(mine)
            if not c["null"] and c["default"] is None and not c["ai"] and c["name"] not in pk:
                ev.nontrivial()
                ev.label("warning")
                if not any(says(w, [n, c["name"]]) for w in warnings):
                    raise Violation("column %s of table %s allows no NULL and has no default, but there is no warning\n%s" % (c["name"], n, sql))
            elif not cf and (c["null"] or c["ai"]) and c["default"] is None or not cf and c["default"] is not None and c["quoted"] and c["type"] in CHARS + BINS + LISTS + DATES:
                for w in warnings:
                    if says(w, [n, c["name"]]):
                        raise Violation("there is no reason for this warning: %s\n%s" % (w, sql))
    extra = [e for e in errors if e not in explained]
    if extra:
        raise Violation("valid definitions are reported: %r\n%s" % (extra[:3], sql))
    if fine:
        ev.label("valid")
    out, ok = commands.execute("check", {"sql_files": source}, print_results=False)
    if ok != fine or not all(e in out for e in errors) or (ok and out):
        raise Violation("check gives %r, %r for errors %r\n%s" % (out, ok, errors, sql))
