"""P17: plan only reads; apply executes exactly that plan, once, in order, and commits."""
import contextlib
import copy
import io
import model
import plan
import render
import sim
import texts
from boot import Violation

from mygrations.core import commands
from mygrations.drivers.pymysql.pymysql import PyMySQL

PROPERTY = "P17"
RULE = "the plan is not empty"
ASSUMPTIONS = ["the server is lib/sim.py behind a recording connection, which treats arguments of execute() like PyMySQL"]
QUICK, THOROUGH = 500, 14000


def gen(g, tier):
    kind = g.weighted([(3, "plan"), (1, "driver")])
    if kind == "driver":
        qs = ["CREATE TABLE d9 (id VARCHAR(255) NOT NULL, v LONGTEXT, PRIMARY KEY (id))"]
        for i in range(g.int(0, 4)):
            qs.append("INSERT INTO d9 (id, v) VALUES ('%d', %s)" % (i, render.quote(texts.text(g))))
        for _ in range(g.int(0, 3) if len(qs) > 1 else 0):
            # a value that changes and changes back: the same statement more than once
            qs.append("UPDATE d9 SET v='%s' WHERE id='%d'" % (g.pick(["a", "b"]), g.int(0, len(qs) - 2 if len(qs) < 3 else 1)))
        return {"kind": kind, "queries": qs, "single": g.chance(30)}
    opt = {"odd": g.chance(20), "track": 1, "maxtables": 3, "mintables": g.pick([0, 1, 1]), "maxcols": 4}
    a, b = model.gen_pair(g, opt)
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    if g.chance(60):
        model.gen_row_pair(g, a, b, odd=g.chance(60))
    if g.chance(12):
        for t in b["tables"]:
            need = [c["name"] for c in t["cols"] if not c["null"] and c["default"] is None and not c["ai"]]
            t["rows"] = [r for r in t["rows"] or [] if all(r.get(n) is not None for n in need)] or None
        a = copy.deepcopy(b)
    notes = None
    if g.chance(45):
        val = lambda: None if g.chance(10) else texts.text(g)
        rid = lambda: texts.text(g, 1, 3).rstrip(" \x00").lower() or "x"
        ok = lambda d: {k: v for k, v in d.items() if plain_ids(k)}
        live = ok({rid(): val() for _ in range(g.int(0, 2))})
        if g.chance(12):
            # many statements
            n, m = g.pick([30, 60, 130, 260]), g.pick([2, 3, 7])
            notes = {"live": {"r%d" % i: "v" for i in range(n)}, "want": {"r%d" % i: "v" if i % m else "w" for i in range(n // 2 if m == 2 else 1, n if m == 3 else n + n // 2, g.pick([1, m]))}, "there": g.chance(80)}
            return {"kind": kind, "live": a, "want": b, "spell": g.int(0, 40), "style": g.pick(["8.0", "5.7"]), "notes": notes, "driver": g.chance(40), "print": g.chance(50), "reuse": g.chance(40), "warm": g.chance(30)}
        notes = {"live": live, "want": ok({**{rid(): val() for _ in range(g.int(1, 2))}, **{k: (v if g.chance(40) else val()) for k, v in live.items() if g.chance(60)}}), "there": g.chance(60)}
    return {"kind": kind, "live": a, "want": b, "spell": g.int(0, 40), "style": g.pick(["8.0", "5.7"]), "notes": notes, "driver": g.chance(40), "print": g.chance(50), "reuse": g.chance(40), "warm": g.chance(30)}


def plain_ids(s):
    """ids which are different to a server whatever its collation is"""
    return s.isascii() and "\\" not in s


NOTES = "CREATE TABLE `notes9` (`id` varchar(255) NOT NULL, `v` longtext, PRIMARY KEY (`id`));"


def quiet(f, *a, **k):
    o = io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(io.StringIO()):
        r = f(*a, **k)
    return r, o.getvalue()


def run_driver(case, ev):
    qs = case["queries"]
    sv = sim.Server("8.0")
    conn = sim.Connection(sv)
    d = PyMySQL(connection=conn)
    if case["single"]:
        for q in qs:
            d.execute(q)
        want = [x for q in qs for x in (("sql", q), ("commit",))]
    else:
        d.execute(list(qs))
        want = [("sql", q) for q in qs] + [("commit",)]
    ev.label("driver")
    ev.nontrivial()
    if conn.log != want:
        raise Violation("the driver does %r for %r" % (conn.log, qs))


def run(case, ev):
    if case["kind"] == "driver":
        return run_driver(case, ev)
    live, want = case["live"], case["want"]
    sv = model.server(live, case["style"])
    sql = render.schema_sql(want, case["spell"], 1)
    if case["notes"]:
        n = case["notes"]
        lit = lambda v: ("null",) if v is None else ("str", v)
        if n["there"]:
            sv.execute(NOTES.rstrip(";"))
            for k, v in n["live"].items():
                sv.do_insert("notes9", ["id", "v"], [[lit(k), lit(v)]])
            sv.commit()
        rows = [[k, v] for k, v in n["want"].items()]
        sql += "\n" + NOTES + ("\n" + render.insert_sql(render.S(case["spell"], 1), "notes9", ["id", "v"], rows) if rows else "")
    plan.need_valid(sql)

    def opts(conn):
        return {"sql_files": sql, ("driver" if case["driver"] else "connection"): PyMySQL(connection=conn) if case["driver"] else conn}

    conn = sim.Connection(sv)
    o = opts(conn)
    (stmts, ok), printed = quiet(commands.execute, "plan", o, print_results=case["print"])
    stmts = list(stmts)
    if conn.writes:
        raise Violation("plan sends %r" % conn.writes)
    if ok is not True:
        raise Violation("plan fails: %r" % (ok,))
    at = 0
    for s in stmts:
        if not isinstance(s, str):
            raise Violation("the plan has %r" % (s,))
        if case["print"]:
            at = printed.find(s, at)
            if at < 0:
                raise Violation("this statement is not shown in its place: %s\n%s" % (s, printed))
            at += len(s)
    if case["warm"]:
        (again, _), _ = quiet(commands.execute, "plan", o if case["reuse"] else opts(sim.Connection(sv)), print_results=False)
        ev.label("planned twice")
        if list(again) != stmts:
            raise Violation("planned again:\n  %s\nfirst:\n  %s" % ("\n  ".join(again), "\n  ".join(stmts)))
    kinds = [sim.parse(s) for s in stmts]
    if stmts:
        ev.nontrivial()
        if kinds[0] != ("checks", False) or kinds[-1] != ("checks", True) or any(k[0] == "checks" for k in kinds[1:-1]):
            raise Violation("foreign key checks are not off from the first to the last statement:\n  %s" % "\n  ".join(stmts))
        if len(stmts) == 2:
            raise Violation("a plan of nothing is not empty: %r" % stmts)
    else:
        ev.label("empty plan")
    for k in kinds:
        ev.label(k[0])
    done = sv.clone()
    conn2 = sim.Connection(done)
    if case["reuse"]:
        # the same options and connection for both commands
        conn2, done = conn, sv
        conn.log, conn.writes = [], []
    (out, ok), printed = quiet(commands.execute, "apply", o if case["reuse"] else opts(conn2), print_results=case["print"])
    if ok is not True or list(out) != stmts:
        raise Violation("apply gives\n  %s\nplan gave\n  %s" % ("\n  ".join(out), "\n  ".join(stmts)))
    if conn2.writes != stmts:
        raise Violation("apply executes\n  %s\nthe plan is\n  %s" % ("\n  ".join(conn2.writes), "\n  ".join(stmts)))
    if stmts:
        last = max(i for i, x in enumerate(conn2.log) if x[0] == "sql" and x[1] == stmts[-1])
        if ("commit",) not in conn2.log[last:] or ("rollback",) in conn2.log:
            raise Violation("no commit after the last statement: %r" % conn2.log[-4:])
        if done.fk_checks is not True:
            raise Violation("foreign key checks stay off")
    if case["notes"]:
        got = {r["id"]: r["v"] for r in done.tables["notes9"].rows}
        # without declared rows the table is not tracked
        exp = case["notes"]["want"] or (case["notes"]["live"] if case["notes"]["there"] else {})
        ev.label("texts")
        if got != exp:
            raise Violation("the table holds %r, declared %r\nstatements:\n%s" % (got, exp, "\n".join(stmts)))
    if case["reuse"]:
        (out, _), _ = quiet(commands.execute, "plan", o, print_results=False)
        ev.label("same options")
        if list(out):
            raise Violation("planned again with the same options after apply:\n  %s" % "\n  ".join(out))
