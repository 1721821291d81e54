"""P08: row comparison finds exactly the real differences."""
import sim
import render
import texts
from boot import Violation

from mygrations.formats.mysql.file_reader.database import Database as FileDatabase
from mygrations.formats.mysql.db_reader.database import Database as LiveDatabase
from mygrations.formats.mysql.mygrations.row_mygration import RowMygration

PROPERTY = "P08"
RULE = "some row is on both sides, or a row is on one side only"
QUICK, THOROUGH = 1000, 40000
COLS = ["a", "b", "c"]
NEAR = ["", "0", "1", "1.0", "1.50", "1.5", "None", "NULL", "null", "True", "2020-01-31", "2020-01-31 00:00:00", "abc", "ABC", "abc ", "-1", "01", "0.5", "10:11:12", "1e3"]


def gen_table(g, name):
    ids = ["1", "2", "3", "10", "01", "a", "1.0", "it's", "None", "0"]
    live_cols = ["id"] + g.some(COLS, 1, 3)
    pool = {c: g.some(NEAR, 1, 4) for c in COLS}

    def val(c, declared):
        if g.chance(20):
            return ["null", ""]
        if g.chance(50):
            return ["text", g.pick(pool[c])]
        if declared:
            return ["text", g.pick(NEAR)]
        return texts.dbvalue(g)
    live = None
    if not g.chance(10):
        live = []
        for i in g.some(ids, 0, 4):
            num = i.isdigit() and i != "01" and g.chance(60)
            live.append([["int" if num else "text", i], {c: val(c, False) for c in live_cols[1:]}])
    want, shape = [], g.some(COLS, 0, 3)
    for i in g.some(ids, 0, 3) + [x[0][1] for x in live or [] if g.chance(70)]:
        if i in [w[0] for w in want]:
            continue
        if g.chance(30):
            shape = g.some(COLS, 0, 3)
        row = {c: val(c, True) for c in shape}
        for lid, lrow in live or []:
            if lid[1] == i and g.chance(60):
                for c in row:
                    if c in lrow and g.chance(85):
                        v = texts.pyvalue(lrow[c])
                        row[c] = ["null", ""] if v is None else ["text", texts.near(g, str(v)) if g.chance(12) else str(v)]
        want.append([i, row])
    return {"name": name, "cols": live_cols, "live": live, "want": want, "tracked": bool(want)}


def gen(g, tier):
    return {"tables": [gen_table(g, n) for n in g.some(["users", "types", "x"], 1, 2)], "spell": g.int(0, 50)}


class Driver:
    def __init__(self, case):
        self.case = case

    def tables(self):
        out = {}
        for t in self.case["tables"]:
            if t["live"] is not None:
                out[t["name"]] = "CREATE TABLE `%s` (\n  %s,\n  PRIMARY KEY (`id`)\n) ENGINE=InnoDB" % (t["name"], ",\n  ".join("`%s` varchar(255) %s" % (c, "NOT NULL" if c == "id" else "DEFAULT NULL") for c in t["cols"]))
        return out

    def rows(self, name):
        t = next(t for t in self.case["tables"] if t["name"] == name)
        return [dict([("id", texts.pyvalue(i))] + [(c, texts.pyvalue(v)) for c, v in r.items()]) for i, r in t["live"]]


def run(case, ev):
    s = render.S(case["spell"], 1)
    sql = ""
    for t in case["tables"]:
        sql += "CREATE TABLE `%s` (`id` varchar(255) NOT NULL, `a` longtext, `b` longtext, `c` longtext, PRIMARY KEY (`id`));\n" % t["name"]
        for i, r in t["want"]:
            sql += render.insert_sql(s, t["name"], ["id"] + list(r), [[i] + [texts.pyvalue(v) for v in r.values()]]) + "\n"
    files = FileDatabase(sql)
    if files.errors:
        raise Violation("valid files are reported as broken: %s\n%s" % (files.errors[:3], sql))
    live = LiveDatabase(Driver(case))
    for t in files.tables.values():
        if t.tracking_rows and t.name in live.tables:
            live.read_rows(t)
    got = {}
    for op in RowMygration(files, live).operations:
        v = sim.parse(str(op))
        if v[0] == "insert":
            rid = next(x[1] for c, x in zip(v[2], v[3][0]) if c == "id")
        else:
            rid = (v[3] if v[0] == "update" else v[2])[0][1][1]
        k = (v[1], rid)
        if k in got:
            raise Violation("two operations for row %r\n%s" % (k, sql))
        got[k] = v[0]
    want = {}
    for t in case["tables"]:
        if not t["want"]:
            continue
        have = {x[0][1]: x[1] for x in t["live"] or []}
        decl = dict((i, r) for i, r in t["want"])
        for i in have:
            if i not in decl:
                want[(t["name"], i)] = "delete"
                ev.label("delete")
        for i, r in decl.items():
            if i not in have:
                want[(t["name"], i)] = "insert"
                ev.label("insert")
                continue
            ev.nontrivial()
            diff = False
            for c, v in r.items():
                if c not in have[i]:
                    diff = True
                    continue
                x, y = texts.pyvalue(v), texts.pyvalue(have[i][c])
                ev.label("compare %s with %s" % (have[i][c][0], v[0]))
                if (x is None) != (y is None) or x is not None and str(x) != str(y):
                    diff = True
            if diff:
                want[(t["name"], i)] = "update"
                ev.label("update")
            else:
                ev.label("no update")
    if want:
        ev.nontrivial()
    if got != want:
        raise Violation("operations for rows are %r, expected %r\nlive: %r\n%s" % (got, want, [(t["name"], t["live"]) for t in case["tables"]], sql))
