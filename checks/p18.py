"""P18: any history of schemas, with interrupted runs, still reaches the current schema."""
import copy
import model
import plan
import render
import sim
from boot import Violation

PROPERTY = "P18"
RULE = "some run was interrupted after its first statement, or at least two runs of the history had something to do"
ASSUMPTIONS = ["the server is lib/sim.py: structural statements commit by themselves, everything else is lost with the connection", "data fits changed column definitions"]
QUICK, THOROUGH = 200, 6000


def rowful(g, versions, names):
    """tables with these names can hold rows in every version"""
    for v in versions:
        for t in v["tables"]:
            if t["name"] not in names:
                continue
            c = model.col(t, "id")
            if c is None:
                t["cols"].insert(0, model.mkcol("id", names[t["name"]], "255" if names[t["name"]] == "varchar" else None, null=False))
                c = t["cols"][0]
            if names[t["name"]] == "varchar":
                c.update(type="varchar", len="255", unsigned=False, ai=False, default=None, enum=None, cs=None, coll=None, null=False)
            elif c["type"] not in model.INTS:
                c.update(type="int", len=None, unsigned=False, default=None, enum=None, cs=None, coll=None, null=False)
            c["null"] = False
            t["keys"] = [k for k in t["keys"] if k["kind"] != "PRIMARY"]
            for k in t["keys"]:
                k["kind"] = "INDEX"
            for x in t["cols"]:
                if x["name"] != "id":
                    x["ai"] = False
            t["keys"].insert(0, {"kind": "PRIMARY", "name": None, "cols": ["id"]})
            model.fit_rows(t)
        model.repair(v)


def gen(g, tier):
    opt = {"odd": g.chance(25), "track": 1, "maxtables": 3, "mintables": g.pick([0, 1]), "maxcols": g.pick([2, 4]), "maxedits": 3}
    start = model.gen_schema(g, opt) if g.chance(75) else {"tables": []}
    versions = [start]
    for i in range(g.weighted([(2, 1), (4, 2), (3, 3), (1, 5)])):
        how = g.weighted([(7, "edit"), (2, "back"), (1, "fresh"), (1, "same")])
        if how == "edit":
            v = model.edited(g, versions[-1], 1, opt["maxedits"], opt)
        elif how == "back":
            v = g.pick(versions)
        elif how == "same":
            v = versions[-1]
        else:
            v = model.gen_schema(g, opt)
        v = copy.deepcopy(v)
        if g.chance(15):
            model.g_shuffle(g, v["tables"])
        versions.append(v)
    every = list(dict.fromkeys(t["name"] for v in versions for t in v["tables"]))
    names = {n: g.pick(["int", "varchar"]) for n in every if g.chance(50)}
    rowful(g, versions, names)
    for v in versions:
        for t in v["tables"]:
            t["rows"] = None
            if t["name"] in names and model.trackable(t) and not model.unfit(t) and g.chance(75):
                # ids that fit into the column in every version
                ids = model.gen_ids(g, [u for x in versions for u in x["tables"] if u["name"] == t["name"] and model.col(u, "id")], 1, 3)
                t["rows"] = model.fill(g, t, ids, set(), g.chance(40)) or None
    runs = []
    for v in versions[1:]:
        n = g.weighted([(3, 0), (4, 1), (2, 2), (1, 4)])
        runs.append({"want": v, "spell": g.int(0, 40), "faults": [[g.int(0, 99), g.pick(["error", "after", "lost"])] for _ in range(n)], "skip": n > 0 and v is not versions[-1] and g.chance(25)})
    return {"live": start, "runs": runs, "style": g.pick(["8.0", "5.7"])}


def tracked(sv, want, show):
    """declared rows are there, and no others"""
    for w in want["tables"]:
        if not w["rows"]:
            continue
        now = sv.tables[w["name"]]
        rows = {str(r["id"]): r for r in now.rows}
        if set(rows) != set(r["id"] for r in w["rows"]) or len(now.rows) != len(rows):
            raise Violation("table %s has the rows %r, declared %r%s" % (w["name"], [r["id"] for r in now.rows], [r["id"] for r in w["rows"]], show()))
        for r in w["rows"]:
            for n, v in r.items():
                exp = sim.coerce(now.col(n), ("null",) if v is None else ("str", v))
                if rows[r["id"]][n] != exp:
                    raise Violation("row %s of table %s has %s=%r, declared %r%s" % (r["id"], w["name"], n, rows[r["id"]][n], v, show()))


def run(case, ev):
    sv = model.server(case["live"], case["style"])
    busy = 0
    story = []
    show = lambda: "\n" + "\n".join(story)
    for r in case["runs"]:
        want = r["want"]
        sql = render.schema_sql(want, r["spell"], 1)
        plan.need_valid(sql)
        was = model.server_as_model(sv)
        for at, kind in r["faults"]:
            stmts = plan.plan(sim.Connection(sv), sql)
            if not stmts:
                break
            at %= len(stmts) + 1
            if at == len(stmts) and kind == "error":
                kind = "lost"
            conn = sim.Connection(sv, fault=(at, kind))
            story.append("interrupted (%s) at statement %d of:\n  %s" % (kind, at, "\n  ".join(stmts)))
            try:
                plan.apply(conn, sql)
            except Exception as e:
                if not isinstance(e, (sim.LostConnection, sim.SqlError)):
                    raise
            else:
                raise Violation("the failure is not raised%s" % show())
            if conn.writes != stmts[:at + 1]:
                raise Violation("executed until the failure: %r%s" % (conn.writes, show()))
            if ("commit",) in conn.log:
                raise Violation("committed in spite of the failure: %r%s" % (conn.log[-4:], show()))
            # the client gives up: the server forgets what is not committed
            sv.rollback()
            sv.fk_checks = True
            ev.label("fault " + kind)
            if at > 0:
                ev.nontrivial()
                ev.label("fault in the middle" if at < len(stmts) else "fault of the commit")
        if r["skip"]:
            ev.label("next schema after a fault")
            continue
        conn = sim.Connection(sv)
        try:
            stmts = plan.apply(conn, sql)
        except sim.SqlError as e:
            story.append("run:\n  %s" % "\n  ".join(conn.writes))
            raise Violation("the server refuses a statement: %s%s" % (e, show()))
        story.append("run:\n  %s" % "\n  ".join(stmts))
        ev.label("run")
        sv.rollback()  # what is not committed by now, never will be
        busy += bool(stmts)
        after = model.compare(model.server_as_model(sv), want, was=was)
        if after:
            raise Violation("after this history: %s%s" % ("; ".join(after[:4]), show()))
        tracked(sv, want, show)
        left = plan.plan(sim.Connection(sv), sql)
        if left:
            raise Violation("there is still something to do:\n  %s%s" % ("\n  ".join(left), show()))
    if busy > 1:
        ev.nontrivial()
        ev.label("history")
