"""P05: column type changes under foreign keys are unlinked first and relinked after."""
import copy
import model
import plan
import render
import sim
from boot import Violation

PROPERTY = "P05"
RULE = "the type of at least one column that a foreign key connects (live or declared) changes"
ASSUMPTIONS = ["the server is lib/sim.py, which refuses a type change while a foreign key connects the column, as MySQL does (errors 3780, 1833)"]
QUICK, THOROUGH = 400, 8000


def gen(g, tier):
    opt = {"odd": False, "track": 1, "maxtables": g.pick([2, 3, 4, 5]), "mintables": 2, "maxcols": g.pick([1, 2]), "maxfks": 3, "maxkeys": 1}
    a = model.gen_schema(g, opt)
    for _ in range(g.int(1, 4)):
        model.add_fk(g, a)
    # several foreign keys over the same columns, under whatever name
    for t in a["tables"]:
        for f in list(t["fks"]):
            if g.chance(20):
                for k in range(g.int(1, 3)):
                    t["fks"].append(dict(f, name="%s_ibfk_%d" % (t["name"], 10 + k)))
    model.repair(a)
    b = copy.deepcopy(a)
    linked = [(f["rtable"], f["rcol"]) for t in b["tables"] for f in t["fks"]]
    for n, c in (g.some(linked, 1, 2) if linked else []):
        t = model.tbl(b, n)
        x = model.col(t, c)
        to = g.pick(["int", "bigint", "varchar", "unsigned", "smallint", "decimal", "char"])
        if to == "unsigned" and x["type"] in model.INTS:
            x["unsigned"] = not x["unsigned"]
        elif to in ("varchar", "char"):
            x.update(type=to, len=g.pick(["20", "64"]), unsigned=False, enum=None, ai=False)
        elif to == "decimal":
            x.update(type=to, len="10,2", unsigned=False, enum=None, ai=False)
        elif to != "unsigned":
            x.update(type=to, len=None, unsigned=g.chance(50), enum=None, cs=None, coll=None)
        x["default"] = None
    for _ in range(g.int(0, 3)):
        what = g.pick(["renamefk", "dropfk", "droptable", "addfk", "dup", "any", "newchild", "chfk"])
        fl = [(t, f) for t in b["tables"] for f in t["fks"]]
        if what == "any":
            model.edit(g, b, opt)
        elif what == "addfk":
            model.add_fk(g, b)
        elif what == "droptable" and b["tables"]:
            b["tables"].remove(g.pick(b["tables"]))
        elif what == "newchild" and b["tables"]:
            free = [n for n in model.TABLE_NAMES if not model.tbl(b, n) and not model.tbl(a, n)]
            if free:
                b["tables"].insert(0, model.gen_table(g, g.pick(free), opt))
                for _ in range(2):
                    model.add_fk(g, b)
        elif fl:
            t, f = g.pick(fl)
            if what == "renamefk":
                f["name"] = g.pick(model.FK_NAMES)
            elif what == "dropfk":
                t["fks"].remove(f)
            elif what == "chfk":
                f["del"] = g.pick(model.ACTIONS)
            elif what == "dup":
                seen = [h for h in t["fks"] if model.fk_tuple(h)[:3] == model.fk_tuple(f)[:3]]
                for h in seen[1:]:
                    t["fks"].remove(h)
                if g.chance(50) and seen:
                    seen[0]["name"] = g.pick(model.FK_NAMES)
    model.repair(b)
    if g.chance(25):
        by = g.pick(["coll", "cs"])
        model.collate(g, a, b, by=by)
        model.recollate(g, b, by)
        model.collate(g, b, by=by)
    return {"live": a, "want": b, "style": g.pick(["8.0", "5.7"]), "spell": g.int(0, 40)}


def typed(c):
    return model.col_tuple(c)[:3] + (tuple(c["enum"] or ()), c["cs"], c["coll"])


def retyped(live, want):
    out = set()
    for t in live["tables"]:
        w = model.tbl(want, t["name"])
        for c in t["cols"]:
            y = w and model.col(w, c["name"])
            if y and typed(c) != typed(y):
                out.add((t["name"], c["name"]))
    return out


def touching(tables, cols):
    """[(table, fk)] of the simulated server on these columns"""
    return [(t.name, f) for t in tables.values() for f in t.fks if (t.name, f.col) in cols or (f.rtable, f.rcol) in cols]


def run(case, ev):
    live, want = case["live"], case["want"]
    sv = model.server(live, case["style"])
    sql = render.schema_sql(want, case["spell"], 1)
    plan.need_valid(sql)
    stmts = plan.plan(sim.Connection(sv), sql)
    cols = retyped(live, want)
    fks = [(t["name"], f) for t in live["tables"] + want["tables"] for f in t["fks"]]
    cols = set(x for x in cols if any(x == (n, f["col"]) or x == (f["rtable"], f["rcol"]) for n, f in fks))
    if cols:
        ev.nontrivial()
        ev.label("columns retyped", len(cols))
        if len(touching(sv.tables, cols)) > 1:
            ev.label("several foreign keys")
        if any(not model.tbl(want, n) for n, _ in touching(sv.tables, cols)):
            ev.label("foreign key in a table that goes away")
        if any(n == f.rtable for n, f in touching(sv.tables, cols)):
            ev.label("self reference")
    parsed = [sim.parse(s) for s in stmts]
    show = "\nplan:\n  " + "\n  ".join(stmts)
    changes = [i for i, v in enumerate(parsed) if v[0] == "alter" and any(a[0] == "change" and (v[1], a[1]) in cols for a in v[2])]
    on = sv.clone()
    added = {}
    for i, v in enumerate(parsed):
        if changes and i == changes[0]:
            left = touching(on.tables, cols)
            if left:
                raise Violation("statement %d changes the type of a column while %s.%s still connects it%s" % (i + 1, left[0][0], left[0][1].name, show))
        new = []
        if v[0] == "alter":
            new = [(v[1], a[1]) for a in v[2] if a[0] == "addfk"]
        elif v[0] == "create":
            new = [(v[1].name, f) for f in v[1].fks]
        for n, f in new:
            if (n, f.col) in cols or (f.rtable, f.rcol) in cols:
                added[(n, f.name)] = added.get((n, f.name), 0) + 1
                if changes and i <= changes[-1]:
                    raise Violation("foreign key %s.%s is added before the last type change of its columns%s" % (n, f.name, show))
        try:
            on.execute(stmts[i])
        except sim.SqlError as e:
            raise Violation("statement %d is refused: %s\n  %s%s" % (i + 1, e, stmts[i], show))
    for t in want["tables"]:
        for f in t["fks"]:
            if (t["name"], f["col"]) in cols or (f["rtable"], f["rcol"]) in cols:
                if added.get((t["name"], f["name"])) != 1:
                    raise Violation("foreign key %s.%s is added %d times%s" % (t["name"], f["name"], added.get((t["name"], f["name"]), 0), show))
    for n, c in cols:
        if not any(v[0] == "alter" and v[1] == n and any(a[0] == "change" and a[1] == c for a in v[2]) for v in parsed):
            raise Violation("the type of %s.%s differs, but the plan does not change it%s" % (n, c, show))
    for t in want["tables"]:
        h = {f.name: (f.col, f.rtable, f.rcol, model.act(f.dele), model.act(f.upd)) for f in on.tables[t["name"]].fks}
        w = {f["name"]: model.fk_tuple(f) for f in t["fks"]}
        if h != w:
            raise Violation("foreign keys of %s are %r, declared %r%s" % (t["name"], h, w, show))
