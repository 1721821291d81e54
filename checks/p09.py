"""P09: CREATE TABLE text is read exactly as written."""
import extract
import model
import render
import texts
from boot import Violation

from mygrations.formats.mysql.file_reader.database import Database as FileDatabase

PROPERTY = "P09"
RULE = "some table has a column with a length, default, sign or value list, or a key, foreign key or option"
QUICK, THOROUGH = 900, 20000

OPTIONS = [["COLLATE", "utf8mb4_unicode_ci"], ["ROW_FORMAT", "DYNAMIC"], ["COMMENT", "'about; -- it''s (x), \\\\'"], ["CHARACTER SET", "utf8mb4"], ["AUTO_INCREMENT", "12"], ["MAX_ROWS", "1000"], ["COMMENT", "'users'"]]


def gen(g, tier):
    s = model.gen_schema(g, {"odd": True, "maxtables": 2, "mintables": 1, "maxcols": 6, "maxkeys": 3, "maxfks": 2})
    for t in s["tables"]:
        for c in t["cols"]:
            # any text can be a default or one of the values of an ENUM
            if c["default"] is not None and c["type"] in ("varchar", "char") and not c["cs"] and not c["coll"] and g.chance(25):
                c["default"] = printable(texts.text(g, 0, 4))[:int(c["len"])].strip()
            if c["type"] == "enum" and g.chance(20):
                c["enum"] = list(dict.fromkeys([v for v in (printable(texts.text(g, 1, 3)).replace(",", "") for _ in range(g.int(1, 3))) if v] + c["enum"]))
            if c["type"] == "tinyint" and c["len"] == "1" and g.chance(15):
                c["unsigned"] = True
    model.repair(s)
    for t in s["tables"]:
        if g.chance(35):
            for o in g.some(OPTIONS, 1, 3):
                if o[0] not in [x[0] for x in t["opts"]] and not (o[0] == "CHARACTER SET" and t["opts"]):
                    t["opts"].append(list(o))
        for f in t["fks"]:
            # an index that is written by nobody: it comes with a foreign key without name
            ks = [k for k in t["keys"] if f["col"] in k["cols"]]
            others = [k for k in t["keys"] if k["name"] == f["col"] and k not in ks]
            if len(ks) == 1 and not others and ks[0]["kind"] == "INDEX" and len(ks[0]["cols"]) == 1 and g.chance(50):
                nm = ("%s_%s_%s_fk" % (t["name"], f["col"], f["rtable"]))[:64]
                if nm not in [x["name"] for u in s["tables"] for x in u["fks"] if x is not f] and len([x for x in t["fks"] if x["col"] == f["col"]]) == 1:
                    f["name"], f["bare"], ks[0]["name"], ks[0]["implied"] = nm, True, f["col"], True
    return {"schema": s, "spell": g.int(0, 10 ** 6)}


def printable(text):
    return "".join(x for x in text if x.isprintable()).strip()


def key(k):
    # KEY () gives the index no name: MySQL calls it like its first column
    return (k["kind"], (k["name"] or k["cols"][0]).lower() if k["kind"] != "PRIMARY" else None, [c for c in k["cols"]])


def run(case, ev):
    s = case["schema"]
    sql = render.schema_sql(s, case["spell"], 2)
    db = FileDatabase(sql)
    if db.errors:
        raise Violation("a valid definition is refused: %s\n%s" % (db.errors[:3], sql))
    got = extract.database(db)
    if [t["name"] for t in got["tables"]] != [t["name"] for t in s["tables"]]:
        raise Violation("tables %r are read, %r are written\n%s" % ([t["name"] for t in got["tables"]], [t["name"] for t in s["tables"]], sql))
    for t, u in zip(s["tables"], got["tables"]):
        want = [norm(c) for c in t["cols"]]
        have = [norm(c) for c in u["cols"]]
        if want != have:
            diff = [(a, b) for a, b in zip(want, have) if a != b]
            raise Violation("columns of %s are read wrong: %r\n%s" % (t["name"], diff[:1] and ["written %s, read %s" % ({k: v for k, v in diff[0][0].items() if v != diff[0][1].get(k)}, {k: v for k, v in diff[0][1].items() if v != diff[0][0].get(k)})] or [[c["name"] for c in want], [c["name"] for c in have]], sql))
        a, b = sorted(map(key, t["keys"]), key=str), sorted(map(key, u["keys"]), key=str)
        if a != b:
            raise Violation("indexes of %s are %r, read as %r\n%s" % (t["name"], a, b, sql))
        a = sorted(model.fk_tuple(f) for f in t["fks"])
        b = sorted(model.fk_tuple(f) for f in u["fks"])
        if a != b or any(x["name"] != y for x, y in zip(sorted(t["fks"], key=lambda f: f["name"]), sorted(f["name"] for f in u["fks"]))):
            raise Violation("foreign keys of %s are %r, read as %r\n%s" % (t["name"], a, b, sql))
        read = {f["name"]: f for f in u["fks"]}
        for f in t["fks"]:
            for x in ("del", "upd"):
                if f[x] == "NO ACTION" and read[f["name"]][x] != f[x]:
                    raise Violation("foreign key %s of %s has NO ACTION, read as %s\n%s" % (f["name"], t["name"], read[f["name"]][x], sql))
        a = [[n.upper(), v] for n, v in t["opts"] if n != "AUTO_INCREMENT"]
        b = [[n.upper(), v] for n, v in u["opts"]]
        if a != b:
            raise Violation("options of %s are %r, read as %r\n%s" % (t["name"], a, b, sql))
        if t["keys"] or t["fks"] or t["opts"] or any(c["len"] or c["default"] is not None or c["unsigned"] or c["enum"] for c in t["cols"]):
            ev.nontrivial()
        for c in t["cols"]:
            ev.label("type " + c["type"])
        for k in t["keys"]:
            ev.label("key " + k["kind"] + (" implied" if k.get("implied") else ""))
        ev.label("foreign keys", len(t["fks"]))
        ev.label("options", len(t["opts"]))
    if any(x.tracking_rows for x in db.tables.values()):
        raise Violation("rows are read where none are written")


def norm(c):
    c = dict(c)
    c["default"] = model.norm_default(c)
    if c["type"] in ("datetime", "timestamp") and (c["default"] or "").upper() == "CURRENT_TIMESTAMP":
        c["default"] = "CURRENT_TIMESTAMP"
    return c
