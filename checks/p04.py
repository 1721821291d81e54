"""P04: a plan touches only what differs."""
import copy
import model
import plan
import render
import sim
from boot import Violation

PROPERTY = "P04"
RULE = "the plan has at least one structural operation"
ASSUMPTIONS = ["statements are read by the independent parser in lib/sim.py"]
QUICK, THOROUGH = 400, 8000


def gen(g, tier):
    opt = {"odd": g.chance(20), "track": g.chance(50), "maxtables": g.pick([2, 3, 4]), "mintables": 1, "maxcols": g.pick([2, 4]), "maxfks": g.pick([2, 5]), "maxedits": g.pick([1, 2, 4])}
    a, b = model.gen_pair(g, opt)
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    if g.chance(70):
        model.gen_row_pair(g, a, b, odd=g.chance(40))
    return {"live": a, "want": b, "style": g.pick(["8.0", "5.7"]), "spell": g.int(0, 40), "view": g.chance(20)}


def differs(x, y):
    """two column definitions differ (a character set or collation on one side only is no difference)"""
    if model.col_tuple(x) != model.col_tuple(y):
        return True
    return any(x[a] and y[a] and x[a].lower() != y[a].lower() for a in ("cs", "coll"))


def printed(sv, t):
    """charset and collation of the columns as the server prints them"""
    return {c.name: model.printed_cs(sv, sv.tables[t], c) for c in sv.tables[t].cols}


def typechange(x, y):
    return (x["type"], x["len"], x["unsigned"], x["enum"]) != (y["type"], y["len"], y["unsigned"], y["enum"]) or (x["cs"], x["coll"]) != (y["cs"], y["coll"])


def run(case, ev):
    live, want = case["live"], case["want"]
    sv = model.server(live, case["style"])
    if case["view"]:
        sv.views["a_view"] = "CREATE VIEW `a_view` AS select 1 AS `1`"
    sql = render.schema_sql(want, case["spell"], 1)
    plan.need_valid(sql)
    stmts = plan.plan(sim.Connection(sv), sql)
    ops = plan.split(stmts)
    L, W = {t["name"]: t for t in live["tables"]}, {t["name"]: t for t in want["tables"]}
    # columns whose type changes, by what the two sides print
    retyped, changed = set(), set()
    for n in set(L) & set(W):
        pr = printed(sv, n)
        for c in L[n]["cols"]:
            y = model.col(W[n], c["name"])
            if y:
                x = dict(c, cs=pr[c["name"]][0], coll=pr[c["name"]][1])
                if differs(x, y):
                    changed.add((n, c["name"]))
                if typechange(x, y):
                    retyped.add((n, c["name"]))
    fknames = {n: set(f["name"] for f in W[n]["fks"]) if n in W else set() for n in set(L) | set(W)}
    lk = {n: model.keyset(t["keys"]) for n, t in L.items()}
    wk = {n: model.keyset(t["keys"]) for n, t in W.items()}
    lf = {n: {f["name"]: model.fk_tuple(f) for f in t["fks"]} for n, t in L.items()}
    wf = {n: {f["name"]: model.fk_tuple(f) for f in t["fks"]} for n, t in W.items()}
    seen = {}

    def bad(why, s):
        raise Violation("%s\n  %s\nplan:\n  %s" % (why, s, "\n  ".join(stmts)))

    def once(s, *key):
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > 1:
            bad("%s appears twice" % " ".join(key), s)

    def connected(n, f):
        return (n, f[0]) in retyped or (f[1], f[2]) in retyped

    nstruct = 0
    for s, v in ops:
        if v[0] in ("create", "drop", "alter"):
            nstruct += 1
        if v[0] == "create":
            n = v[1].name
            once(s, "create table", n)
            if n in L or n not in W:
                bad("table %s is created, but it is %s" % (n, "there" if n in L else "not declared"), s)
            for f in v[1].fks:
                once(s, "add foreign key", n, f.name)
        elif v[0] == "drop":
            for n in v[1]:
                once(s, "drop table", n)
                if n not in L or n in W:
                    bad("table %s is dropped, but it is %s" % (n, "declared" if n in W else "not there"), s)
        elif v[0] == "alter":
            n = v[1]
            for a in v[2]:
                ev.label("alter " + a[0])
                if a[0] == "addcol":
                    once(s, "add column", n, a[1].name)
                    if n not in W or not model.col(W[n], a[1].name) or n in L and model.col(L[n], a[1].name):
                        bad("column %s.%s is added" % (n, a[1].name), s)
                elif a[0] == "dropcol":
                    once(s, "drop column", n, a[1])
                    if n not in W or model.col(W[n], a[1]) or not model.col(L[n], a[1]):
                        bad("column %s.%s is dropped" % (n, a[1]), s)
                elif a[0] == "change":
                    once(s, "change column", n, a[1])
                    if (n, a[1]) not in changed:
                        bad("column %s.%s is changed, but both sides are the same" % (n, a[1]), s)
                elif a[0] in ("addkey", "dropkey"):
                    name = ("PRIMARY" if a[1].kind == "PRIMARY" else a[1].name or a[1].cols[0]) if a[0] == "addkey" else a[1]
                    once(s, a[0], n, name)
                    h, w = lk.get(n, {}).get(name), wk.get(n, {}).get(name)
                    if h is not None and h == w:
                        bad("index %s.%s is touched, but both sides are the same" % (n, name), s)
                    # an index that only has another name because the server named it after the foreign key
                    other = [m for m in (lk if a[0] == "addkey" else wk).get(n, {}) if (lk if a[0] == "addkey" else wk)[n][m] == (w if a[0] == "addkey" else h) and m not in (wk if a[0] == "addkey" else lk).get(n, {})]
                    mine = [m for m in (wk if a[0] == "addkey" else lk).get(n, {}) if (wk if a[0] == "addkey" else lk)[n][m] == (w if a[0] == "addkey" else h) and m not in (lk if a[0] == "addkey" else wk).get(n, {})]
                    if len(other) == 1 and len(mine) == 1 and mine[0] == name and name != "PRIMARY" and other[0] != "PRIMARY" and (name in fknames[n] or other[0] in fknames[n]):
                        bad("index %s.%s is touched, but it is the one of the foreign key" % (n, name), s)
                elif a[0] in ("addfk", "dropfk"):
                    name = a[1].name if a[0] == "addfk" else a[1]
                    once(s, "add foreign key" if a[0] == "addfk" else "drop foreign key", n, name)
                    h, w = lf.get(n, {}).get(name), wf.get(n, {}).get(name)
                    if h is not None and h == w and not connected(n, h):
                        bad("foreign key %s.%s is touched, but both sides are the same and no column it connects changes type" % (n, name), s)
                    if (w if a[0] == "addfk" else h) is None:
                        bad("foreign key %s.%s is %s" % (n, name, "not declared" if a[0] == "addfk" else "not there"), s)
        elif v[0] in ("insert", "update", "delete"):
            n = v[1]
            if n not in W or not W[n]["rows"]:
                bad("rows of table %s are touched, but it is not tracked" % n, s)
    if nstruct:
        ev.nontrivial()
    done = sv.clone()
    for s in stmts:
        try:
            done.execute(s)
        except sim.SqlError:
            raise Violation("the plan can't be run: see P02\n  " + s)
    for n in set(L) & set(W):
        if W[n]["rows"]:
            continue
        x, y = sv.tables[n].rows, done.tables[n].rows
        if x:
            ev.label("untracked rows kept")
        if len(x) != len(y):
            raise Violation("table %s is not tracked, but its rows changed" % n)
        for r, q in zip(x, y):
            for c in r:
                if c in q and (n, c) not in changed and (type(r[c]), r[c]) != (type(q[c]), q[c]):
                    raise Violation("row of untracked table %s: %s was %r and is %r\nplan:\n  %s" % (n, c, r[c], q[c], "\n  ".join(stmts)))
    if done.views != sv.views:
        raise Violation("views changed")
