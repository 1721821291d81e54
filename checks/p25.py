"""P25: definitions which a program builds are the same as those read from SQL."""
import copy
import math
import random
import re

import extract
import model
import p15
import plan
import render
import sim
from boot import Violation

from mygrations.core.definitions.option import Option
from mygrations.formats.mysql.definitions import Constraint, Index, Table
from mygrations.formats.mysql.definitions.columns import Date, Enum, Numeric, String
from mygrations.formats.mysql.definitions.rows import Rows
from mygrations.formats.mysql.file_reader.database import Database as FileDatabase
from mygrations.formats.mysql.mygrations.mygration import Mygration
from mygrations.formats.mysql.mygrations.row_mygration import RowMygration

PROPERTY = "P25"
RULE = "some table has two columns, or some definition is broken"
ASSUMPTIONS = ["types are given in upper case, as the reader gives them", "the server is lib/sim.py"]
QUICK, THOROUGH = 400, 15000

NUMBERS = ["int", "tinyint", "smallint", "mediumint", "bigint", "decimal", "float", "double", "bit", "numeric", "integer"]
DATES = ["date", "datetime", "timestamp", "time", "year"]
HOLES = ["long fk", "long fk", "bad delete", "bad update", "fk without name", "fk without column", "fk without table", "fk without target", "column without name", "column without type", "index without columns", "long key", "table without columns", "two primary keys"]


def gen(g, tier):
    kind = g.weighted([(5, "same"), (3, "broken"), (2, "holes"), (2, "rows")])
    if kind == "broken":
        c = p15.gen(g, tier)
        for t in c["tables"]:
            for col in t["cols"]:
                if col["values"] is not None:
                    col["len"] = None
                if "," in (col["len"] or ""):
                    # with a character set the grammar takes this for a list of values
                    col["cs"] = col["coll"] = None
        return {"kind": kind, "tables": c["tables"], "seed": g.int(0, 9999)}
    if kind == "rows":
        a, b = copy.deepcopy(model.gen_pair(g, {"odd": g.chance(40), "maxtables": 3, "mintables": 1, "maxcols": 5}))
        model.gen_row_pair(g, a, b, odd=g.chance(50))
        return {"kind": kind, "a": a, "b": b, "style": g.pick(["8.0", "5.7"]), "seed": g.int(0, 9999), "raw": g.chance(40)}
    a, b = copy.deepcopy(model.gen_pair(g, {"odd": g.chance(40), "maxtables": 3, "mintables": 1, "maxcols": 5}))
    case = {"kind": kind, "a": a, "b": b, "style": g.pick(["8.0", "5.7"]), "seed": g.int(0, 9999)}
    if kind == "holes":
        case["hole"] = g.pick(HOLES)
        case["table"] = g.int(0, 5)
    else:
        # display widths are no difference, but foreign keys of tables in memory want them to match
        for c in [c for s in (a, b) for t in s["tables"] for c in t["cols"] if c["type"] in model.INTS]:
            c["len"] = None
    return case


# ------------------------------------------------------------ building

def build_column(c, r):
    ty = {"integer": "int", "numeric": "decimal"}.get(c["type"].lower(), c["type"].lower())
    cls = Numeric if ty in NUMBERS else Date if ty in DATES else Enum if ty in ("enum", "set") else String
    kw = {"name": c["name"], "column_type": ty.upper()}
    ln, d = c["len"], c["default"]
    if ln is not None:
        kw["length"] = int(ln) if ln.isdecimal() and r.random() < .5 else ln
    elif r.random() < .3:
        kw["length"] = r.choice([None, ""])
    if not c["null"] or r.random() < .5:
        kw["null"] = c["null"]
    if d is not None:
        kw["has_default"] = True
        kw["default"] = d
        if cls is Numeric and r.random() < .5:
            if d == str_int(d):
                kw["default"] = int(d)
            elif d == str_float(d) and math.isfinite(float(d)):
                kw["default"] = float(d)
    if c["unsigned"] or r.random() < .2:
        kw["unsigned"] = c["unsigned"]
    if c["ai"] or r.random() < .2:
        kw["auto_increment"] = c["ai"]
    if c["enum"] is not None:
        kw["enum_values"] = list(c["enum"])
    for a, n in (("cs", "character_set"), ("coll", "collate")):
        if c[a] is not None:
            kw[n] = c[a]
    return cls(**kw)


def str_int(d):
    try:
        return str(int(d)) if d.isascii() else None
    except ValueError:
        return None


def str_float(d):
    try:
        return repr(float(d)) if d.isascii() else None
    except ValueError:
        return None


def build_key(k, r):
    cols = list(k["cols"])
    kind = r.choice([k["kind"], k["kind"], k["kind"].lower(), k["kind"].capitalize()])
    out = Index(k["name"] or "", cols, kind) if r.random() < .5 else Index(name=k["name"] or "", columns=cols, index_type=kind)
    # what the program does with its list afterwards is its own business
    cols.append("later")
    return out


def build_fk(f, r):
    kw = {}
    for a, n in (("del", "on_delete"), ("upd", "on_update")):
        if f[a] != "RESTRICT" or r.random() < .5:
            kw[n] = f[a].lower() if r.random() < .3 else f[a]
    return Constraint(f["name"], f["col"], f["rtable"], f["rcol"], **kw)


def build_table(t, r):
    cols, keys, fks = [build_column(c, r) for c in t["cols"]], [build_key(k, r) for k in t["keys"]], [build_fk(f, r) for f in t["fks"]]
    opts = [Option(n, v) for n, v in t["opts"]]
    how = r.randrange(3)
    if how == 0:
        x = Table(t["name"], cols, keys, fks, opts)
        for l in (cols, keys, fks, opts):
            del l[:]
        return x
    x = Table(t["name"], options=opts) if how == 1 else Table(t["name"], cols, options=opts)
    if how == 1:
        # one by one, at their places and in any order
        order = list(range(len(cols)))
        r.shuffle(order)
        done = []
        for i in order:
            before = max((j for j in done if j < i), default=None)
            if before is None:
                x.add_column(cols[i], True) if done else x.add_column(cols[i])
            else:
                x.add_column(cols[i], cols[before].name)
            done.append(i)
    for k in keys:
        x.add_index(k)
    for f in fks:
        x.add_constraint(f)
    return x


def build(s, r):
    db = FileDatabase("")
    for t in s["tables"]:
        db.add_table(build_table(t, r))
    return db


# ------------------------------------------------------------ the check

def warnings(db):
    """(without those about the spelling of the SQL)"""
    return sorted(w for t in db.tables.values() for w in set(t.schema_warnings))


def run(case, ev):
    ev.label(case["kind"])
    r = random.Random(case["seed"])
    return {"same": same, "broken": broken, "holes": holes, "rows": rows}[case["kind"]](case, ev, r)


def same(case, ev, r):
    s = case["b"]
    sql = render.schema_sql(s, case["seed"], 1)
    text, built = FileDatabase(sql), build(s, r)
    if any(len(t["cols"]) > 1 for t in s["tables"]):
        ev.nontrivial()
    if list(built.errors):
        raise Violation("errors in tables built from the model of\n%s\n%r" % (sql, list(built.errors)))
    if warnings(built) != warnings(text):
        raise Violation("warnings %r, but %r when read from\n%s" % (warnings(built), warnings(text), sql))
    for n, t in built.tables.items():
        left = [str(x) for x in t.to(text.tables[n])] + [str(x) for x in text.tables[n].to(t)]
        if left:
            raise Violation("there is a difference between table %s and what is read from its SQL: %r\n%s" % (n, left, sql))
        # (names only: implied names and lengths are the subject of P09 and P11)
        x, y = extract.table(t), extract.table(text.tables[n])
        y["opts"] = model.tbl(s, n)["opts"]
        for part in ("fks", "opts", "keys"):
            if x[part] != y[part]:
                raise Violation("%s of table %s are %r, and %r when read from\n%s" % (part, n, x[part], y[part], sql))
        if (list(t.primary.columns) if t.primary else None) != (list(text.tables[n].primary.columns) if text.tables[n].primary else None):
            raise Violation("primary key of %s is %r\n%s" % (n, t.primary and t.primary.columns, sql))
        for c in t.columns:
            if t.column_is_indexed(c) != text.tables[n].column_is_indexed(c) or t.column_before(c) != text.tables[n].column_before(c):
                raise Violation("column %s of table %s: place %r, indexed %r\n%s" % (c, n, t.column_before(c), t.column_is_indexed(c), sql))
    for nice in (False, True):
        sv = sim.Server(case["style"])
        texts = ["SET FOREIGN_KEY_CHECKS=0"] + [str(t.create(nice)) for t in built.tables.values()]
        plan.run(sv, texts)
        d = model.compare(model.server_as_model(sv), s)
        if d:
            raise Violation("the printed tables are others: %r\n%s" % (d, "\n".join(texts)))
    sv = model.server(case["a"], case["style"])
    live = plan.live(sv)
    m = Mygration(built, live, False)
    ops = [str(x) for x in m.operations]
    if ops:
        ev.label("planned")
    plan.run(sv, ["SET FOREIGN_KEY_CHECKS=0"] + ops)
    d = model.compare(model.server_as_model(sv), s, old=case["a"], was=case["a"])
    if d:
        raise Violation("after the plan for tables built by a program: %r\n  %s" % (d, "\n  ".join(ops)))
    left = [str(x) for x in Mygration(built, plan.live(sv), False).operations]
    if left:
        raise Violation("after the plan there is still something to do: %r" % left)


def broken(case, ev, r):
    sql = "\n".join(p15.table_sql(t) for t in case["tables"])
    text = FileDatabase(sql)
    db = FileDatabase("")
    for t in case["tables"]:
        if t["inline"]:
            t["keys"] = [["PRIMARY", None, [t["inline"]]]] + t["keys"]
        x = {"name": t["name"], "cols": [dict(c, enum=c["values"]) for c in t["cols"]], "keys": [{"kind": k[0], "name": k[1], "cols": k[2]} for k in t["keys"]], "fks": [], "opts": []}
        if sum(k["kind"] == "PRIMARY" for k in x["keys"]) > 1:
            return
        db.add_table(build_table(x, r))
    want, got = sorted(set(text.errors)), sorted(set(db.errors))
    if want:
        ev.nontrivial()
    # (what is wrong may be said in other words)
    about = lambda es: sorted(sorted(set(re.findall(r"\b[a-z]+q\d\w*", e))) for e in es)
    if about(want) != about(got):
        raise Violation("errors of tables built by a program are %r, but %r when read from\n%s" % (got, want, sql))
    if warnings(text) != warnings(db):
        raise Violation("warnings of tables built by a program are %r, but %r when read from\n%s" % (warnings(db), warnings(text), sql))


def holes(case, ev, r):
    s, what = copy.deepcopy(case["b"]), case["hole"]
    t = s["tables"][case["table"] % len(s["tables"])] if s["tables"] else None
    words = [t["name"]] if t else []
    fine, f = False, None
    if t is None:
        return
    if "fk" in what or what.startswith("bad"):
        have = [(x, f) for x in s["tables"] for f in x["fks"]]
        if not have:
            return
        t, f = have[case["table"] % len(have)]
        words = [t["name"]]
        if what == "long fk":
            n = [64, 65, 66, 200][case["seed"] % 4]
            fine = n == 64
            f["name"] = ("f" * n) if case["seed"] % 3 else "é" * n
            words.append(f["name"])
        elif what == "bad delete":
            f["del"] = "SET_NULL"
            words += ["SET_NULL", f["name"], "DELETE"]
        elif what == "bad update":
            f["upd"] = "DROP"
            words += ["DROP", f["name"], "UPDATE"]
        elif what == "fk without name":
            f["name"] = ""
        else:
            f[{"fk without column": "col", "fk without table": "rtable", "fk without target": "rcol"}[what]] = ""
            words.append(f["name"])
    elif what == "table without columns":
        t["cols"], t["keys"], t["fks"] = [], [], []
    elif what == "column without name":
        t["cols"].append(model.mkcol("", "int"))
    elif what == "column without type":
        t["cols"].append(model.mkcol("typeless", ""))
        words.append("typeless")
    elif what == "index without columns":
        t["keys"].append({"kind": "INDEX", "name": "nothing", "cols": []})
        words.append("nothing")
    elif what == "two primary keys":
        t["keys"] = [k for k in t["keys"] if k["kind"] != "PRIMARY"] + [{"kind": "PRIMARY", "name": x, "cols": [t["cols"][i]["name"]]} for x, i in (("firstp", 0), ("secondp", -1))]
    else:
        n = [64, 65, 66, 200][case["seed"] % 4]
        fine = n == 64
        t["keys"].append({"kind": ["INDEX", "UNIQUE"][case["seed"] % 2], "name": "k" * n, "cols": [t["cols"][0]["name"]]})
        words.append("k" * n)
    ev.nontrivial()
    ev.label(what + (" (just fits)" if fine else ""))
    errors = list(build(s, r).errors)
    good = list(build(case["b"], r).errors)
    if fine:
        if sorted(errors) != sorted(good):
            raise Violation("a name of 64 characters is refused: %r" % errors)
    elif not any(all(w in e for w in words) for e in errors if e not in good):
        raise Violation("%s in %r is not reported: %r" % (what, t, errors))
    if fine or what in ("table without columns", "two primary keys"):
        return
    # the definition alone knows it, too
    one = build_fk(f, r) if f else build_key(t["keys"][-1], r) if "index" in what or "key" in what else build_column(t["cols"][-1], r)
    own = [str(e) for e in one.schema_errors]
    if not any(all(w in e for w in words[1:]) for e in own):
        raise Violation("%s in %r is not reported by the definition itself: %r" % (what, t, own))


def rows(case, ev, r):
    s = case["b"]
    sql = render.schema_sql(s, case["seed"], 1)
    text, built = FileDatabase(sql), build(s, r)
    for t in s["tables"]:
        if t["rows"] is None:
            continue
        x = built.tables[t["name"]]
        if case["raw"]:
            for row in t["rows"]:
                given = dict(row)
                if given["id"].isdecimal() and r.random() < .5:
                    given["id"] = int(given["id"])
                error = x.add_raw_row(given)
                if error:
                    raise Violation("row %r of %s is refused: %s" % (row, t["name"], error))
                anonymous = {k: v for k, v in given.items() if k != "id"}
                if r.random() < .5:
                    anonymous["id"] = r.choice([None, ""])
                try:
                    x.add_raw_row(anonymous)
                    raise Violation("a row without an id is taken: %r" % anonymous)
                except ValueError:
                    pass
                if x.add_raw_row(dict(given)) in (None, True, False, ""):
                    raise Violation("the same row %r of %s is added twice" % (row, t["name"]))
        else:
            for row in t["rows"]:
                cols = list(row)
                allcols = cols == [c["name"] for c in t["cols"]] and r.random() < .5
                rw = Rows(t["name"], [[row[c] for c in cols]], [] if allcols else cols, 0 if allcols else len(cols))
                x.add_rows(rw)
        if not x.tracking_rows:
            raise Violation("table %s with rows does not track them" % t["name"])
        if t["rows"]:
            ev.nontrivial()
    if sorted(built.errors) != sorted(text.errors):
        raise Violation("errors %r, but %r when read from\n%s" % (list(built.errors), list(text.errors), sql))
    for t in s["tables"]:
        got, want = extract.rows(built.tables[t["name"]]), extract.rows(text.tables[t["name"]])
        if case["raw"] and want is not None:
            # every column has a value then
            dflt = {c["name"]: c["default"] for c in t["cols"]}
            want = {i: dict(dflt, **row) for i, row in want.items()}
            # (a default may have been given as a number)
            got = {i: {n: None if v is None else str(v) for n, v in row.items()} for i, row in got.items()}
        if got != want and not (case["raw"] and not t["rows"]):
            raise Violation("rows of %s are %r, but %r when read from\n%s" % (t["name"], got, want, sql))
    sv = model.server(case["a"], case["style"])

    def live():
        db = plan.live(sv)
        for t in built.tables.values():
            if t.tracking_rows and t.name in db.tables:
                db.read_rows(t)
        return db
    if case["raw"]:
        return
    plan.run(sv, [str(x) for x in Mygration(built, live()).operations])
    ops = [str(x) for x in RowMygration(built, live()).operations]
    plan.run(sv, ops)
    left = [str(x) for x in RowMygration(built, live()).operations]
    if left:
        raise Violation("after\n  %s\nthere is still something to do: %r" % ("\n  ".join(ops), left))
