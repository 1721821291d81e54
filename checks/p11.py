"""P11: a printed table definition reads back as the same table."""
import extract
import model
import plan
import render
import sim
import p09
from boot import Violation

from mygrations.formats.mysql.file_reader.database import Database as FileDatabase

PROPERTY = "P11"
RULE = "some table has a key besides the primary key, a foreign key, an option, or a column with a default, a value list, a character set or AUTO_INCREMENT"
ASSUMPTIONS = ["the server that has to accept the printed text is lib/sim.py, written from the MySQL manual"]
QUICK, THOROUGH = 500, 15000


def gen(g, tier):
    c = p09.gen(g, tier)
    for t in c["schema"]["tables"]:
        for k in t["keys"]:
            k.pop("implied", None)
        # a character set of the table would be one of its columns, too
        t["opts"] = [o for o in t["opts"] if o[0] not in ("COLLATE", "CHARACTER SET")]
    return {"schema": c["schema"], "spell": c["spell"], "source": g.pick(["files", "files", "live"]), "style": g.pick(["8.0", "5.7"])}


def run(case, ev):
    s = case["schema"]
    sql = render.schema_sql(s, case["spell"], 2)
    if case["source"] == "files":
        db = FileDatabase(sql)
    else:
        db = plan.live(model.server(s, case["style"]))
    if db.errors:
        raise Violation("a valid definition is refused: %s\n%s" % (db.errors[:3], sql))
    ev.label(case["source"])
    have = extract.database(db)
    for t in s["tables"]:
        if t["fks"] or t["opts"] or len(t["keys"]) > 1 or any(c["default"] is not None or c["enum"] or c["cs"] or c["coll"] or c["ai"] for c in t["cols"]):
            ev.nontrivial()
    for how, text in (("compact", [str(t) for t in db.tables.values()]), ("formatted", [str(t.create(True)) for t in db.tables.values()])):
        sv = sim.Server(case["style"])
        sv.execute("SET FOREIGN_KEY_CHECKS=0")
        for x in text:
            try:
                sv.execute(x)
            except sim.SqlError as e:
                raise Violation("the server refuses the %s text: %s\n%s" % (how, e, x))
        diff = model.compare(model.server_as_model(sv), s)
        if diff:
            raise Violation("the %s text creates other tables: %s\n%s" % (how, "; ".join(diff[:3]), "\n".join(text)))
        db2 = FileDatabase("\n".join(text))
        if db2.errors:
            raise Violation("the %s text is refused when read again: %s\n%s" % (how, db2.errors[:3], "\n".join(text)))
        got = extract.database(db2)
        for a, b in zip(have["tables"], got["tables"]):
            for part in ("name", "cols", "keys", "fks", "opts"):
                if a[part] != b[part]:
                    raise Violation("%s of %s change when the %s text is read again: %r -> %r\n%s" % (part, a["name"], how, a[part], b[part], "\n".join(text)))
        if len(have["tables"]) != len(got["tables"]):
            raise Violation("tables are lost\n%s" % "\n".join(text))
        for n, t in db.tables.items():
            u = db2.tables[n]
            for x, y in ((t, u), (u, t)):
                ops = [str(o) for o in x.to(y)]
                if ops:
                    raise Violation("the table differs from its own %s text: %s\n%s" % (how, ops, "\n".join(text)))
            if str(u) != str(t) or str(u.create(True)) != str(t.create(True)) or u.nice() != t.nice():
                raise Violation("the %s text is printed differently when read again:\n%s\n%s" % (how, t, u))
    if [t.nice() for t in db.tables.values()] != text:
        raise Violation("nice() is not the formatted text")
