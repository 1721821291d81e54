"""P02: a strict MySQL 8 server accepts each planned statement at its place."""
import model
import plan
import render
import sim
from boot import Violation

PROPERTY = "P02"
RULE = "the plan has at least two structural statements, or one that alters a table with a foreign key"
ASSUMPTIONS = ["the server is lib/sim.py, written from the MySQL manual; it checks every statement with foreign key checks off"]
QUICK, THOROUGH = 900, 9000


def gen(g, tier):
    opt = {"odd": g.chance(20), "maxtables": g.pick([2, 3, 4]), "mintables": 1, "maxcols": g.pick([1, 3, 4]), "maxfks": 6, "maxkeys": 3, "maxedits": g.pick([2, 4, 7])}
    a, b = model.gen_pair(g, opt)
    return {"live": a, "want": b, "style": g.weighted([(3, "8.0"), (1, "5.7")]), "spell": g.int(0, 40)}


def run(case, ev):
    live, want = case["live"], case["want"]
    sv = model.server(live, case["style"])
    sql = render.schema_sql(want, case["spell"], 1)
    plan.need_valid(sql)
    stmts = plan.plan(sim.Connection(sv), sql)
    run_on = sv.clone()
    run_on.fk_checks = False
    plan.run(run_on, stmts)
    ops = plan.split(stmts)
    linked = set(t["name"] for s in (live, want) for t in s["tables"] if t["fks"])
    if len(ops) >= 2 or any(v[0] == "alter" and v[1] in linked for _, v in ops):
        ev.nontrivial()
    for _, v in ops:
        ev.label(v[0])
        if v[0] == "alter":
            for a in v[2]:
                ev.label("alter " + a[0])
