"""P23: a plan depends on nothing but the database and the files."""
import copy
import json
import os
import subprocess
import sys
import boot
import extract
import model
import plan
import render
import sim
from boot import Violation

from mygrations.drivers.pymysql.pymysql import PyMySQL
from mygrations.formats.mysql.db_reader.database import Database as LiveDatabase
from mygrations.formats.mysql.file_reader.database import Database as FileDatabase
from mygrations.formats.mysql.mygrations.mygration import Mygration
from mygrations.formats.mysql.mygrations.row_mygration import RowMygration

PROPERTY = "P23"
RULE = "the plan has at least two statements besides the switching of foreign key checks"
ASSUMPTIONS = ["the server is lib/sim.py"]
QUICK, THOROUGH = 200, 8000
WORKER = None
BEFORE = []


def setup():
    global WORKER
    env = dict(os.environ, PYTHONHASHSEED=str(1 + os.getpid() % 4000))
    WORKER = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(boot.VERIF, "lib", "planworker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)


def teardown():
    if WORKER:
        WORKER.stdin.close()
        WORKER.terminate()
        WORKER.wait()


def pair(g, small=False):
    opt = {"odd": g.chance(20), "track": 1, "maxtables": 2 if small else g.pick([2, 4, 6]), "mintables": g.pick([0, 1, 1]), "maxcols": g.pick([3, 5]), "maxedits": g.pick([2, 6])}
    a, b = model.gen_pair(g, opt)
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    if g.chance(20):
        a = {"tables": []}
    if g.chance(25):
        # an index which is named after its foreign key on one side only
        both = [(t, f, k) for t in a["tables"] for f in t["fks"] for k in t["keys"] if k["cols"] == [f["col"]] and k["kind"] != "PRIMARY" and model.tbl(b, t["name"])]
        if both:
            t, f, k = g.pick(both)
            x = model.tbl(b, t["name"])
            for s in a, b:
                for y in s["tables"]:
                    y["fks"] = [h for h in y["fks"] if h["name"] != f["name"]]
            t["fks"].append(f)
            x["fks"].append(copy.deepcopy(f))
            for y in (t, x):
                y["keys"] = [h for h in y["keys"] if h["cols"] != k["cols"] or h["kind"] != k["kind"]]
                y["keys"] = [h for h in y["keys"] if h["name"] not in (f["name"], "other9")]
            t["keys"].append(dict(k, name=f["name"]))
            x["keys"].append(dict(k, name="other9"))
            if g.chance(30):
                a, b = b, a
            model.repair(a)
            model.repair(b)
    if g.chance(60):
        model.gen_row_pair(g, a, b, odd=g.chance(50))
    return a, b


def gen(g, tier):
    a, b = pair(g)
    other = None
    if g.chance(50):
        # names, columns and rows in common with the pair itself are likely
        other = dict(zip(("live", "want"), pair(g, True)))
    return {"live": a, "want": b, "other": other, "style": g.pick(["8.0", "5.7"]), "spell": g.int(0, 40), "swap": g.chance(30)}


def picture(db):
    out = []
    for t in db.tables.values():
        x = extract.table(t)
        x["rows"] = extract.rows(t)
        if x["rows"]:
            # with the order of rows and values, in which they are inserted
            x["rows"] = [[i, list(r.items())] for i, r in x["rows"].items()]
        out.append([x, str(t), t.nice()])
    return copy.deepcopy([out, [str(e) for e in db.errors], [str(w) for w in db.warnings]])


def text(stmts):
    return "\n  ".join([""] + list(stmts))


def run(case, ev):
    sv = model.server(case["live"], case["style"])
    sql = render.schema_sql(case["want"], case["spell"], 1)
    plan.need_valid(sql)
    first = plan.plan(sim.Connection(sv), sql)
    if len(first) > 3:
        ev.nontrivial()
    if not first:
        ev.label("empty plan")

    def same(got, how):
        ev.label(how)
        if list(got) != first:
            raise Violation("planned %s:%s\nplanned at first:%s\nfiles:\n%s" % (how, text(got), text(first), sql))

    if case["other"]:
        o = case["other"]
        osv = model.server(o["live"], case["style"])
        plan.plan(sim.Connection(osv), render.schema_sql(o["want"], case["spell"], 1))
        same(plan.plan(sim.Connection(sv), sql), "after another plan")
        plan.apply(sim.Connection(osv.clone()), render.schema_sql(o["want"], case["spell"], 1))
    same(plan.apply(sim.Connection(sv.clone()), sql), "by the apply command")
    same(plan.plan(sim.Connection(sv), sql), "again after it was applied to a copy")
    WORKER.stdin.write(json.dumps({"live": case["live"], "style": case["style"], "sql": sql}) + "\n")
    WORKER.stdin.flush()
    line = WORKER.stdout.readline()
    if not line:
        raise RuntimeError("the other process is gone")
    got = json.loads(line)
    if isinstance(got, str):
        raise Violation("in another process: %s\n%s" % (got, sql))
    same(got, "in a process with another hash seed")

    # by the objects themselves
    files = FileDatabase(sql)
    live = LiveDatabase(PyMySQL(connection=sim.Connection(sv)))
    for t in files.tables.values():
        if t.tracking_rows and t.name in live.tables:
            live.read_rows(t)
    before = picture(files), picture(live)
    structure, rows = Mygration(files, live, False), RowMygration(files, live)
    inner = first[1:-1]
    same(first[:1] + [str(x) for x in structure] + [str(x) for x in rows] + first[-1:], "by the migration objects")
    for m, what in ((structure, "structure"), (rows, "rows")):
        ops = [str(x) for x in m.operations]
        if [str(x) for x in m] != ops or len(m) != len(ops) or bool(m) != bool(ops) or str(m) != "\n".join(ops):
            raise Violation("the %s migration has %d operations, its length is %d, and as text it is:\n%s\noperations:%s" % (what, len(ops), len(m), m, text(ops)))
    if list(structure.errors):
        raise Violation("errors of a valid migration: %r" % (structure.errors,))
    whole = Mygration(files, live)
    if [sim.parse(str(x)) for x in whole][:1] != [("checks", False)] or [sim.parse(str(x)) for x in whole][-1:] != [("checks", True)]:
        raise Violation("foreign key checks are not off around:\n%s" % whole)
    if [str(x) for x in whole][1:-1] != [str(x) for x in structure]:
        raise Violation("with foreign key checks around it, the plan is:%s\nwithout:%s" % (text(map(str, whole)), text(map(str, structure))))
    after = picture(files), picture(live)
    for x, y, what in zip(before, after, ("files", "database")):
        if x != y:
            raise Violation("planning changed the definition of the %s:\n%s\nbefore:\n%s" % (what, y, x))
    ev.label("definitions unchanged")
    if case["swap"]:
        # the way back is planned from the same objects (whatever it is), and the way forth once more
        Mygration(live, files, False, force=True)
        if live.tables:
            RowMygration(live, files)
        ev.label("way back")
        after = picture(files), picture(live)
        if before != after:
            raise Violation("planning the way back changed the definitions:\n%s\nbefore:\n%s" % (after, before))
    same(first[:1] + [str(x) for x in Mygration(files, live, False)] + [str(x) for x in RowMygration(files, live)] + first[-1:], "by the same objects again")
    if files.tables:
        fresh = FileDatabase(sql)
        if [str(x) for x in RowMygration(files)] != [str(x) for x in RowMygration(fresh)] or [str(x) for x in Mygration(files)] != [str(x) for x in Mygration(fresh)]:
            raise Violation("after a plan, the same files are created by:%s\nwithout it by:%s" % (text([str(x) for x in RowMygration(files)]), text([str(x) for x in RowMygration(fresh)])))
    if not case["live"]["tables"]:
        same(first[:1] + [str(x) for x in Mygration(files, None, False)] + [str(x) for x in RowMygration(files)] + first[-1:], "without a database")
