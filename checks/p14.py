"""P14: foreign keys are reported as invalid exactly when MySQL would refuse them."""
import re
import model
import render
from boot import Skip, Violation

from mygrations.formats.mysql.file_reader.database import Database as FileDatabase

PROPERTY = "P14"
RULE = "some foreign key is broken, or there are at least two intact ones"
QUICK, THOROUGH = 600, 25000
FAULTS = ["dropcol", "droptarget", "droptable", "noindex", "notfirst", "targetnoindex", "targetnotfirst", "type", "len", "sign", "cs", "coll", "setnull", "dupname", "wrongcol", "wrongtable", "longname"]


def gen(g, tier):
    s = model.gen_schema(g, {"odd": False, "maxtables": 4, "mintables": 1, "maxcols": 4, "maxkeys": 2, "maxfks": 5})
    for _ in range(g.weighted([(3, 1), (2, 0)])):
        # text columns link tables, too
        if len(s["tables"]) < 2:
            break
        a, b = g.some(s["tables"], 2, 2)
        c = model.gen_type(g, "link_t", False)
        c.update(type=g.pick(["varchar", "char"]), len=g.pick(["20", "30"]), unsigned=False, enum=None, default=None, ai=False)
        if g.chance(50):
            c["cs"], c["coll"] = g.pick([("latin1", None), ("utf8mb4", "utf8mb4_bin"), (None, "utf8mb4_bin")])
        if model.col(a, "link_t") or model.col(b, "link_t"):
            break
        for t in (a, b):
            t["cols"].append(dict(c))
            t["keys"].append({"kind": g.pick(["INDEX", "UNIQUE"]), "name": "link_t_k", "cols": ["link_t"] + ([x for x in [t["cols"][0]["name"]] if x != "link_t" and t["cols"][0]["type"] not in model.NOKEY] if g.chance(30) else [])})
        a["fks"].append({"name": "t", "col": "link_t", "rtable": b["name"], "rcol": "link_t", "del": g.pick(["CASCADE", "RESTRICT"]), "upd": "RESTRICT"})
    n = 0
    for t in s["tables"]:
        for k in t["keys"]:
            if k["kind"] != "PRIMARY":
                n += 1
                k["name"] = "ix%d" % n
        for f in t["fks"]:
            n += 1
            f["name"] = "zq%d" % n
    ops = []
    for _ in range(g.weighted([(3, 1), (2, 2), (1, 0), (1, 4)])):
        every = [(t, f) for t in s["tables"] for f in t["fks"]]
        if every:
            t, f = g.pick(every)
            op = g.pick(FAULTS)
            fault(g, s, t, f, op)
            ops.append(op)
    return {"schema": s, "ops": ops, "spell": g.int(0, 60)}


def drop(t, name):
    t["cols"] = [c for c in t["cols"] if c["name"] != name] or [model.mkcol("filler", "int")]
    for k in t["keys"]:
        k["cols"] = [c for c in k["cols"] if c != name]
    t["keys"] = [k for k in t["keys"] if k["cols"]]


def unindex(g, t, name, keep):
    """no index starts with the column; keep: some index still has it, further back"""
    other = [c["name"] for c in t["cols"] if c["name"] != name and c["type"] not in model.NOKEY]
    out = []
    for k in t["keys"]:
        if k["cols"][0] == name:
            if keep and other and k["kind"] != "PRIMARY":
                o = g.pick(other)
                k["cols"] = [o] + [c for c in k["cols"] if c != o]
            elif k["kind"] == "PRIMARY" or not keep:
                continue
            else:
                continue
        out.append(k)
    t["keys"] = out
    c = model.col(t, name)
    if c:
        c["ai"] = False


def fault(g, s, t, f, op):
    p = model.tbl(s, f["rtable"])
    c, pc = model.col(t, f["col"]), p and model.col(p, f["rcol"])
    if op == "dropcol":
        drop(t, f["col"])
    elif op == "droptarget" and p:
        drop(p, f["rcol"])
    elif op == "droptable":
        if p is not t:
            s["tables"] = [x for x in s["tables"] if x is not p]
        else:
            f["rtable"] = "gone"
    elif op in ("noindex", "notfirst"):
        unindex(g, t, f["col"], op == "notfirst")
    elif op in ("targetnoindex", "targetnotfirst") and p:
        unindex(g, p, f["rcol"], op == "targetnotfirst")
    elif op == "wrongcol":
        f["rcol"] = g.pick(["gone", f["rcol"] + "x"] + [x["name"] for x in (p or t)["cols"]])
    elif op == "wrongtable":
        f["rtable"] = g.pick(["gone", f["rtable"] + "s"] + [x["name"] for x in s["tables"]])
    elif op == "dupname":
        every = [x for u in s["tables"] if u is not t and f["name"] not in [y["name"] for y in u["fks"]] for x in u["fks"]]
        if every:
            g.pick(every)["name"] = f["name"]
    elif op == "longname":
        f["name"] = f["name"].ljust(g.pick([63, 64, 64, 65, 65, 66, 130]), "x")
    elif op == "setnull" and c:
        f[g.pick(["del", "upd"])] = "SET NULL"
        if g.chance(70):
            c["null"] = False
    elif c and pc:
        x = g.pick([c, pc])
        if x["ai"]:
            x = c if x is pc else pc
        if x["ai"]:
            return
        if op == "type":
            x["type"] = g.pick([y for y in (model.INTS if x["type"] in model.INTS else ["varchar", "char"] if x["type"] in ("varchar", "char") else [x["type"]])])
            x["default"] = None
        elif op == "len" and x["type"] in ("varchar", "char"):
            x["len"] = g.pick(["19", "21", "50"])
            x["default"] = None
        elif op == "len" and x["type"] == "decimal":
            x["len"] = g.pick(["9,2", "10,3"])
            x["default"] = None
        elif op == "sign" and x["type"] in model.INTS + ["decimal"]:
            x["unsigned"] = not x["unsigned"]
            x["default"] = None
        elif op == "cs" and x["type"] in ("varchar", "char"):
            x["cs"], x["coll"], x["default"] = (None, None, None) if x["cs"] == "latin1" else ("latin1", None, None)
        elif op == "coll" and x["type"] in ("varchar", "char"):
            x["cs"], x["coll"], x["default"] = ("utf8mb4", "utf8mb4_unicode_ci", None) if x["coll"] == "utf8mb4_bin" else (x["cs"] if x["cs"] == "utf8mb4" else None, "utf8mb4_bin", None)
            if g.chance(50):
                # both name the character set, and differ in nothing but the collation
                y = pc if x is c else c
                y["cs"] = x["cs"] = "utf8mb4"
                y["default"] = None
                if g.chance(70) and not y["coll"]:
                    y["coll"] = g.pick(["utf8mb4_general_ci", "utf8mb4_0900_ai_ci"])


def broken(s, t, f):
    """why MySQL refuses this foreign key, or None"""
    p = model.tbl(s, f["rtable"])
    c, pc = model.col(t, f["col"]), p and model.col(p, f["rcol"])
    if not p:
        return "no target table"
    if not pc:
        return "no target column"
    if not c:
        return "no column"
    for x, y, w in ((t, c, "no index"), (p, pc, "no target index")):
        if not any(k["cols"][0] == y["name"] for k in x["keys"]):
            return w
    for a in ("type", "len", "unsigned", "cs", "coll"):
        if c[a] != pc[a]:
            return a
    pk = [n for k in t["keys"] if k["kind"] == "PRIMARY" for n in k["cols"]]
    if "SET NULL" in (f["del"], f["upd"]) and (not c["null"] or c["name"] in pk):
        return "set null"
    return None


def run(case, ev):
    s = case["schema"]
    for t in s["tables"]:
        for c in t["cols"]:
            if c["type"] in model.INTS and not (c["type"] == "tinyint" and c["len"] == "1"):
                c["len"] = None
    sql = render.schema_sql(s, case["spell"], 1)
    db = FileDatabase(sql)
    errors = list(db.errors)
    names = {}
    for t in s["tables"]:
        for f in t["fks"]:
            names.setdefault(f["name"], set()).add(t["name"])
    intact = 0
    for t in s["tables"]:
        unmet = db.unfulfilled_fks(db.tables[t["name"]])
        for f in t["fks"]:
            why = broken(s, t, f)
            if (f["name"] in unmet) != bool(why):
                raise Violation("unfulfilled_fks(%s) is %r for foreign key %s which is %s\n%s" % (t["name"], list(unmet), f["name"], "broken: " + why if why else "intact", sql))
            twice = len(names[f["name"]]) > 1
            mine = [e for e in errors if re.search(r"\b%s\b" % f["name"], e)]
            long = len(f["name"]) > 64
            ev.label(why or ("duplicate name" if twice else "long name" if long else "intact"))
            if why or twice or long:
                ev.nontrivial()
            else:
                intact += 1
            if why and not any(("`%s`" % t["name"]) in e or t["name"] in e for e in mine):
                raise Violation("foreign key %s of %s is broken (%s), but not reported: %r\n%s" % (f["name"], t["name"], why, errors[:4], sql))
            if twice and not any(all(n in e for n in names[f["name"]]) for e in mine) and len(names[f["name"]]) == 2:
                raise Violation("two foreign keys named %s are not reported: %r\n%s" % (f["name"], errors[:4], sql))
            if long and not mine:
                raise Violation("foreign key %s of %s has too long a name, but is not reported: %r\n%s" % (f["name"], t["name"], errors[:4], sql))
            if not why and not twice and not long and mine:
                raise Violation("foreign key %s of %s is intact, but reported: %r\n%s" % (f["name"], t["name"], mine[:2], sql))
    if intact > 1:
        ev.nontrivial()
