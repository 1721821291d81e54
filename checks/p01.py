"""P01: executing the plan turns the live structure into the declared one."""
import model
import plan
import render
import sim
from boot import Violation

PROPERTY = "P01"
RULE = "the live and the declared structure differ and the plan is not empty"
ASSUMPTIONS = ["the server is lib/sim.py, written from the MySQL manual"]
QUICK, THOROUGH = 900, 9000


def gen(g, tier):
    opt = {"odd": g.chance(30), "maxtables": g.pick([2, 3, 3, 4]), "maxcols": g.pick([2, 4, 5])}
    a, b = model.gen_pair(g, opt)
    return {"live": a, "want": b, "style": g.pick(["8.0", "5.7"]), "spell": g.int(0, 40)}


def run(case, ev):
    live, want = case["live"], case["want"]
    sv = model.server(live, case["style"])
    sql = render.schema_sql(want, case["spell"], 1)
    plan.need_valid(sql)
    stmts = plan.plan(sim.Connection(sv), sql)
    before = model.compare(model.server_as_model(sv), want)
    run_on = sv.clone()
    plan.run(run_on, stmts)
    after = model.compare(model.server_as_model(run_on), want, old=live, was=None if case.get("strict") else live)
    if before and stmts:
        ev.nontrivial()
    for d in before:
        ev.label("differs: " + d.split(" ")[0])
    ev.label("style " + case["style"])
    if after:
        raise Violation("after the plan: %s\nplan:\n  %s" % ("; ".join(after[:4]), "\n  ".join(stmts)))
    if run_on.fk_checks is not True:
        raise Violation("foreign key checks stay off")
