"""P06: rows of tracked tables are synchronised, all other rows are left alone."""
import copy

import model
import plan
import render
import sim
from boot import Violation

PROPERTY = "P06"
RULE = "at least one row is inserted, updated or deleted, or a table that is not tracked holds rows"
ASSUMPTIONS = ["values are ones the server gives back as the same text; data fits changed column definitions", "the server is lib/sim.py"]
QUICK, THOROUGH = 400, 8000


def gen(g, tier):
    opt = {"odd": g.chance(20), "track": 1, "maxtables": g.pick([1, 2, 3]), "mintables": 1, "maxedits": g.pick([1, 2, 4]), "maxcols": g.pick([2, 4, 5])}
    a, b = model.gen_pair(g, opt)
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    model.gen_row_pair(g, a, b, odd=g.chance(60))
    case = {"live": a, "want": b, "style": g.pick(["8.0", "5.7"]), "spell": g.int(0, 40), "bulk": None}
    if g.chance(2):
        # more rows than a reader fetches, or a writer sends, at once
        n = g.pick([400, 1050, 1300])
        case["bulk"] = {"n": n, "new": g.some(list(range(1, 40)), 1, 3), "gone": g.some(list(range(n - 300, n)), 1, 3), "other": g.some(list(range(n - 60, n)), 1, 3)}
    return case


def bulk(case):
    """one more table with many rows"""
    m = case["bulk"]
    live, want = copy.deepcopy(case["live"]), copy.deepcopy(case["want"])
    for s, skip in ((live, m["new"]), (want, m["gone"])):
        rows = [{"id": str(i), "n": str(i + (i in m["other"] and s is want))} for i in range(1, m["n"]) if i not in skip]
        s["tables"].append({"name": "bulk9", "cols": [model.mkcol("id", "int", null=False), model.mkcol("n", "int")], "keys": [{"kind": "PRIMARY", "name": None, "cols": ["id"]}], "fks": [], "opts": [], "rows": rows})
    return live, want


def unchanged(t, w, name):
    x, y = model.col(t, name), model.col(w, name)
    return x and y and model.col_tuple(x) == model.col_tuple(y) and (x["cs"], x["coll"]) == (y["cs"], y["coll"])


def run(case, ev):
    live, want = case["live"], case["want"]
    if case.get("bulk"):
        ev.label("more than a thousand rows" if case["bulk"]["n"] > 1010 else "many rows")
        live, want = bulk(case)
    sv = model.server(live, case["style"])
    sql = render.schema_sql(want, case["spell"], 1)
    plan.need_valid(sql)
    stmts = plan.plan(sim.Connection(sv), sql)
    done = sv.clone()
    plan.run(done, stmts)
    for s in stmts:
        v = sim.parse(s)[0]
        if v in ("insert", "update", "delete"):
            ev.label(v)
            ev.nontrivial()
    show = lambda: "\nplan:\n  " + "\n  ".join(stmts)
    for w in want["tables"]:
        t = model.tbl(live, w["name"])
        now = done.tables[w["name"]]
        old = sv.tables[w["name"]].rows if t else []
        if not w["rows"]:
            if old:
                ev.label("untracked rows")
                ev.nontrivial()
            if len(now.rows) != len(old):
                raise Violation("table %s is not tracked and had %d rows, now %d%s" % (w["name"], len(old), len(now.rows), show()))
            for x, y in zip(old, now.rows):
                for n in x:
                    if unchanged(t, w, n) and x[n] != y[n]:
                        raise Violation("table %s is not tracked, but %s changed from %r to %r%s" % (w["name"], n, x[n], y[n], show()))
            continue
        ev.label("tracked")
        idc = now.col("id")
        rows = {str(r["id"]): r for r in now.rows}
        if set(rows) != set(r["id"] for r in w["rows"]) or len(now.rows) != len(rows):
            raise Violation("table %s has the rows %r, declared %r%s" % (w["name"], [r["id"] for r in now.rows], [r["id"] for r in w["rows"]], show()))
        before = {str(r["id"]): r for r in old}
        for r in w["rows"]:
            got = rows[r["id"]]
            for n, v in r.items():
                exp = sim.coerce(now.col(n), ("null",) if v is None else ("str", v))
                if got[n] != exp or type(got[n]) is not type(exp):
                    raise Violation("row %s of table %s has %s=%r, declared %r%s" % (r["id"], w["name"], n, got[n], v, show()))
            if r["id"] in before:
                for n, v in before[r["id"]].items():
                    if n not in r and unchanged(t, w, n) and got[n] != v:
                        raise Violation("no value is declared for %s of row %s of %s, but it changed from %r to %r%s" % (n, r["id"], w["name"], v, got[n], show()))
