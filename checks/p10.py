"""P10: INSERT text is read exactly as written."""
import extract
import render
import texts
from boot import Violation

from mygrations.formats.mysql.file_reader.database import Database as FileDatabase

PROPERTY = "P10"
RULE = "some written value has a quote, separator, parenthesis, comment marker, backslash or white space in it, is NULL or is a number"
QUICK, THOROUGH = 900, 25000
COLS = ["name", "value_a", "Kind", "unique_x", "key_b", "c1", "text"]
NUMBERS = ["0", "1", "-1", "+5", "007", "1.50", "-0.0", "12345678901234567890", "1e3", "1.5E-3", ".5", "5.", "00", "2020"]


def gen_value(g):
    n = g.int(0, 9)
    if n < 5:
        return ["text", texts.text(g)]
    if n < 7:
        return ["number", g.pick(NUMBERS)]
    if n < 8:
        return ["null", g.pick(["NULL", "null", "Null", "nULL"])]
    return ["text", g.pick(["NULL", "null", "", " ", "a", "0", "None", "a, b", "(1)", "'),('2','x"])]


def gen(g, tier):
    tabs = []
    for name in g.some(["users", "logs", "Types", "values_a", "a", "into_x"], 1, 3):
        cols = g.some(COLS, 0, 4)
        rows, ids = [], set()
        for _ in range(g.int(0, 5)):
            rid = [g.pick(["num", "num", "text"]), ""]
            rid[1] = g.pick(["1", "2", "3", "10", "0", "-1", "01", "1.0", "42"]) if rid[0] == "num" else (texts.text(g, 1, 3) or "x")
            if rid[0] == "text" and g.chance(20):
                # an id may read like anything, also like a name
                rid[1] = g.pick(cols + ["id", name])
            if rid[1] in ids or not rid[1]:
                continue
            ids.add(rid[1])
            rows.append([rid, None])
        cmds, i = [], 0
        while i < len(rows):
            n = g.int(1, 3)
            shape = g.some(cols + ["id"], len(cols) + 1, len(cols) + 1)
            drop = g.some(cols, 0, len(cols)) if g.chance(40) else []
            shape = [c for c in shape if c not in drop]
            cmds.append([shape, [[r[0] if c == "id" else gen_value(g) for c in shape] for r in rows[i:i + n]]])
            i += n
        tabs.append({"name": name, "cols": cols, "cmds": cmds})
    return {"tables": tabs, "order": g.int(0, 999), "parts": g.int(1, 3), "spell": g.int(0, 10 ** 6)}


def literal(s, v, isid=False):
    kind, text = v
    if kind in ("number", "null"):
        return text
    if kind == "num" and s.r.random() < 0.6:
        return text
    q = '"' if s.chance(0.25) else "'"
    out = ""
    for ch in text:
        if ch == "\\":
            out += "\\\\"
        elif ch == q:
            out += q + q if s.r.random() < 0.5 else "\\" + q
        elif ch in "'\"" and s.r.random() < 0.3:
            out += "\\" + ch
        else:
            out += ch
    return q + out + q


def command(s, name, shape, rows):
    out = render.words(s, "INSERT INTO") + s.sp() + s.name(name) + s.psp() + render.cols_sql(s, shape) + s.psp() + s.kw("VALUES") + s.psp()
    gs = []
    for r in rows:
        gs.append("(" + s.osp() + (s.osp() + "," + s.osp()).join(literal(s, v) for v in r) + s.osp() + ")")
    sep = "," if not s.chance(0.2, 2) else ", " + render.comment(s, 0.6)
    return out + (sep + s.osp()).join(gs) + s.osp() + ";"


def run(case, ev):
    s = render.S(case["spell"], 2)
    cmds, want = [], {}
    for t in case["tables"]:
        cmds.append("CREATE TABLE `%s` (`id` varchar(255) NOT NULL, %sPRIMARY KEY (`id`));" % (t["name"], "".join("`%s` longtext, " % c for c in t["cols"])))
        want[t["name"]] = {} if t["cmds"] else None
        for shape, rows in t["cmds"]:
            cmds.append(command(s, t["name"], shape, rows))
            for r in rows:
                row = {c: None if v[0] == "null" else v[1] for c, v in zip(shape, r)}
                want[t["name"]][row["id"]] = row
                for v in r:
                    if v[0] == "null" or v[0] == "number" or any(x in v[1] for x in "'\"\\,;()#-/* \n\t\r"):
                        ev.nontrivial()
                    ev.label("value " + v[0])
            ev.label("groups %d" % len(rows))
    s2 = render.S(case["order"], 2)
    if case["order"]:
        s2.r.shuffle(cmds)
    k = min(case["parts"], len(cmds))
    parts = [""] * k
    for i, c in enumerate(cmds):
        parts[i * k // len(cmds)] += render.comment(s) + c + ("\n" if s.chance(0.8) else " ")
    db = FileDatabase(parts if k > 1 else parts[0])
    if db.errors:
        raise Violation("valid commands are refused: %s\n%s" % (db.errors[:3], "\n".join(parts)))
    alone = FileDatabase("\n".join(x for x in cmds if x[:6] == "CREATE"))
    if sorted(map(str, db.warnings)) != sorted(map(str, alone.warnings)):
        raise Violation("warnings of valid commands: %r\n%s" % (db.warnings, "\n".join(parts)))
    for t in case["tables"]:
        if t["name"] not in db.tables:
            raise Violation("table %s is lost\n%s" % (t["name"], "\n".join(parts)))
        got = extract.rows(db.tables[t["name"]])
        if got != want[t["name"]]:
            raise Violation("rows of %s are %r, written %r\n%s" % (t["name"], got, want[t["name"]], "\n".join(parts)))
        for r in (got or {}).values():
            for v in r.values():
                if v is not None and type(v).__mro__[-2] is not str:
                    raise Violation("value %r is not text" % (v,))
