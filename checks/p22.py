"""P22: exporting gives SQL that brings the files in line with the database."""
import contextlib
import copy
import io
import model
import plan
import render
import sim
from boot import Violation

from mygrations.core import commands

PROPERTY = "P22"
RULE = "at least one table is exported, or nothing is and there is a tracked table or a foreign key"
ASSUMPTIONS = ["the server is lib/sim.py", "values are ones the server gives back as the same text"]
QUICK, THOROUGH = 400, 9000


def gen(g, tier):
    opt = {"odd": g.chance(20), "track": 1, "maxtables": g.pick([1, 2, 3, 4]), "mintables": g.pick([0, 1, 1]), "maxedits": g.pick([0, 1, 2, 4]), "maxcols": g.pick([2, 4, 5]), "maxfks": g.pick([2, 4])}
    a, b = model.gen_pair(g, opt)
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    for c in [c for s in (a, b) for t in s["tables"] for c in t["cols"] if c["type"] in ("binary", "varbinary")]:
        c["default"] = None  # rows would have the bytes of it
    if g.chance(80):
        model.gen_row_pair(g, a, b, odd=g.chance(50))
        for t in b["tables"]:
            old = model.tbl(a, t["name"])
            if t["rows"] and old and old["rows"] and g.chance(50):
                # the same rows, perhaps with fewer columns
                cols = set(c["name"] for c in t["cols"]) & set(c["name"] for c in old["cols"] if model.col(t, c["name"]) and model.col_tuple(model.col(t, c["name"])) == model.col_tuple(c))
                if "id" in cols and all(c in cols or model.sim_default(model.col(t, c)) is not None or model.col(t, c)["null"] for c in (x["name"] for x in t["cols"])):
                    drop = set(g.some(sorted(cols - {"id"}), 0, 2)) if len(cols) > 1 and g.chance(40) else set()
                    t["rows"] = [{n: v for n, v in r.items() if n in cols - drop} for r in old["rows"]]
    return {"live": a, "want": b, "style": g.pick(["8.0", "8.0", "5.7"]), "spell": g.int(0, 40), "print": g.chance(20), "view": g.chance(10), "respell": g.int(0, 40)}


def printed(sv, t):
    """the table as the server prints it, as a model"""
    out = copy.deepcopy(model.sim_as_model(sv.tables[t]))
    for c, x in zip(sv.tables[t].cols, out["cols"]):
        x["cs"], x["coll"] = model.printed_cs(sv, sv.tables[t], c)
    return out


def rows_differ(table, old, want):
    """declared rows against the ones that are there"""
    have = {str(r["id"]): r for r in old}
    if set(have) != set(r["id"] for r in want):
        return True
    for r in want:
        for n, v in r.items():
            if n not in have[r["id"]]:
                continue
            try:
                exp = sim.coerce(table.col(n), ("null",) if v is None else ("str", v))
            except sim.SqlError:
                return True  # a value the present type of the column can't even hold
            if have[r["id"]][n] != exp:
                return True
    return False


def typechange(x, y):
    return (x["type"], x["len"], x["unsigned"], x["enum"]) != (y["type"], y["len"], y["unsigned"], y["enum"]) or (x["cs"], x["coll"]) != (y["cs"], y["coll"])


def run(case, ev):
    live, want = case["live"], case["want"]
    sv = model.server(live, case["style"])
    if case["view"]:
        sv.views["a_view"] = "CREATE VIEW `a_view` AS select 1 AS `1`"
    sql = render.schema_sql(want, case["spell"], 1)
    plan.need_valid(sql)
    conn = sim.Connection(sv)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        lines, ok = commands.execute("plan_export", {"connection": conn, "sql_files": sql}, print_results=case["print"])
    lines = [str(x) for x in lines]
    if conn.writes:
        raise Violation("an export changes the database: %r" % conn.log)
    if case["print"] and any(x not in out.getvalue() for x in lines):
        raise Violation("what is exported is not what is printed")
    show = lambda: "\nexport:\n  " + "\n  ".join(lines)
    # what has to be listed
    W = {t["name"]: t for t in want["tables"]}
    L = {t["name"]: printed(sv, t["name"]) for t in live["tables"]}
    differ, retyped = set(), set()
    for n, t in L.items():
        if n not in W or model.compare({"tables": [t]}, {"tables": [W[n]]}):
            differ.add(n)
        if n in W:
            for c in t["cols"]:
                y = model.col(W[n], c["name"])
                if y and typechange(c, y):
                    retyped.add((n, c["name"]))
            if W[n]["rows"] and rows_differ(sv.tables[n], sv.tables[n].rows, W[n]["rows"]):
                differ.add(n)
                ev.label("rows differ")
    linked = set(n for s in (L, W) for n, t in s.items() for f in t["fks"] if (n, f["col"]) in retyped or (f["rtable"], f["rcol"]) in retyped)
    got, inserted = [], {}
    for x in lines:
        v = sim.parse(x)
        if v[0] == "create":
            got.append(v[1].name)
        elif v[0] == "insert":
            n = v[1]
            if n not in got:
                raise Violation("rows of %s come before the table%s" % (n, show()))
            for group in v[3]:
                inserted.setdefault(n, []).append(dict(zip(v[2], group)))
        else:
            raise Violation("exported: %s" % x)
    if len(set(got)) != len(got):
        raise Violation("a table is exported twice%s" % show())
    if differ - set(got):
        raise Violation("%s differ(s) from the files, but is not exported%s" % (sorted(differ - set(got)), show()))
    if set(got) - differ - linked:
        raise Violation("%s is exported, but is the same on both sides%s" % (sorted(set(got) - differ - linked), show()))
    for n in got:
        tracked = n in W and W[n]["rows"]
        have = sv.tables[n].rows if tracked else []
        rows = inserted.get(n, [])
        if len(rows) != len(have):
            raise Violation("%d rows of %s are exported instead of %d%s" % (len(rows), n, len(have), show()))
        for r in rows:
            vals = {c: sim.coerce(sv.tables[n].col(c), lit) for c, lit in r.items()}
            if vals not in have:
                raise Violation("exported row of %s is not there: %r%s" % (n, vals, show()))
    if got or any(t["rows"] or t["fks"] for t in want["tables"]):
        ev.nontrivial()
    ev.label("%d exported" % min(len(got), 3))
    if inserted:
        ev.label("rows exported")
    # the files brought in line
    keep = {"tables": [copy.deepcopy(W[t["name"]]) for t in live["tables"] if t["name"] in W and t["name"] not in got]}
    rest = "".join(render.schema_sql(keep, case["respell"], 1)) if keep["tables"] else ""
    new = rest + "\n" + "\n".join(lines)
    errors = list(plan.files(new).errors)
    for e in errors:
        # widths, or a character set only one side gives, between an exported table and one that isn't (see DESIGN.md)
        f = [(n, f) for n, t in L.items() for f in t["fks"] if "`%s`:" % f["name"] in e]
        if not (("length mismatch" in e or "character set mismatch" in e or "collate mismatch" in e) and f and all((n in got) != (x["rtable"] in got) for n, x in f)):
            raise Violation("the files brought in line have errors: %s\n%s" % (e, new))
    stmts = plan.plan(sim.Connection(sv), new, **({"force": True} if errors else {}))
    if stmts:
        raise Violation("with the exported tables in the files there still is a plan:\n  %s%s" % ("\n  ".join(stmts), show()))
