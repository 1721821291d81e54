"""P03: a database that already matches gets an empty plan."""
import copy
import model
import plan
import render
import sim
from boot import Violation

PROPERTY = "P03"
RULE = "the database has at least one table with two columns, or a plan was really applied before"
ASSUMPTIONS = ["the server is lib/sim.py: it prints SHOW CREATE TABLE in the style of MySQL 5.7 or 8.0", "declared values are ones the server gives back as the same text"]
QUICK, THOROUGH = 400, 8000


def gen(g, tier):
    opt = {"odd": g.chance(30), "track": 1, "maxtables": 3, "mintables": 1, "maxcols": g.pick([2, 4, 5])}
    kind = g.weighted([(4, "same"), (3, "paste"), (4, "again")])
    if kind == "again":
        a, b = model.gen_pair(g, opt)
        a, b = copy.deepcopy(a), copy.deepcopy(b)
        if g.chance(60):
            model.gen_row_pair(g, a, b, odd=g.chance(50))
        return {"kind": kind, "live": a, "want": b, "style": g.pick(["8.0", "5.7"]), "spell": g.int(0, 60)}
    s = model.gen_schema(g, opt)
    if g.chance(60):
        model.gen_row_pair(g, {"tables": []}, s, odd=g.chance(50))
    return {"kind": kind, "want": s, "style": g.pick(["8.0", "5.7"]), "style2": g.pick(["8.0", "5.7"]), "spell": g.int(0, 60), "named": g.chance(40), "level": g.pick([1, 2]), "view": g.chance(15)}


def named_indexes(s):
    """what a server does by itself: the only index of a foreign key is named like the constraint"""
    s = copy.deepcopy(s)
    for t in s["tables"]:
        taken = set((k["name"] or "").lower() for k in t["keys"])
        for f in t["fks"]:
            ks = [k for k in t["keys"] if k["kind"] == "INDEX" and k["cols"] == [f["col"]]]
            same = [k for k in t["keys"] if k["cols"][0] == f["col"]]
            if len(ks) == 1 and len(same) == 1 and f["name"].lower() not in taken:
                ks[0]["name"] = f["name"]
                taken.add(f["name"].lower())
    return s


def run(case, ev):
    want = case["want"]
    if case["kind"] == "again":
        sv = model.server(case["live"], case["style"])
        sql = render.schema_sql(want, case["spell"], 1)
        plan.need_valid(sql)
        first = plan.apply(sim.Connection(sv), sql)
        if first:
            ev.nontrivial()
        what = "after applying\n  " + "\n  ".join(first)
    else:
        there = copy.deepcopy(want)
        if case["named"]:
            there = named_indexes(there)
        sv = model.server(there, case["style"])
        if case["view"]:
            sv.views["a_view"] = "CREATE VIEW `a_view` AS select 1 AS `1`"
        if case["kind"] == "paste":
            other = model.server(want, case["style2"])
            s = render.S(case["spell"], 1)
            sql = ";\n".join(other.show(t) for t in other.tables.values()) + ";\n"
            if case["spell"] % 3 == 0:
                sql = "\n".join(x[:-1] + "," if x.endswith(",") else x for x in sql.replace("\n", "\r\n").split("\n"))
            sql += "\n".join(x for t in want["tables"] for x in render.rows_sql(s, t))
        else:
            sql = render.schema_sql(want, case["spell"], case["level"])
        plan.need_valid(sql)
        if any(len(t["cols"]) > 1 for t in want["tables"]):
            ev.nontrivial()
        what = "the database has exactly what is declared:\n" + sql
    ev.label(case["kind"] + " " + case["style"])
    if any(t["rows"] for t in want["tables"]):
        ev.label("with rows")
    got = plan.plan(sim.Connection(sv), sql)
    if got:
        raise Violation("%s\nbut the plan is\n  %s" % (what, "\n  ".join(got)))
    c = sim.Connection(sv)
    done = plan.apply(c, sql)
    if done or c.writes:
        raise Violation("nothing to do, but apply executes %r" % (c.writes or done))
