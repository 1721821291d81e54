"""P07: row values reach the database unaltered, and are never run as SQL."""
import plan
import render
import sim
import texts
from boot import Violation

PROPERTY = "P07"
RULE = "a value or id holds a quote, backslash, semicolon, comment marker, control character, percent sign or non-ASCII character"
ASSUMPTIONS = ["MySQL string literal rules as in lib/sqllex.py (default sql_mode: backslash escapes on)"]
QUICK, THOROUGH = 2500, 60000

NAMES = ["users", "t", "order", "select", "my table", "a-b", "it's", "x;y", "a\"b", "caf\u00e9", "--t", "1a"]
COLS = ["name", "value", "group", "a b", "it's", "c;d", "x,y", "n(1)", "\u00e9t\u00e9", "key"]
NASTY = set("'\"\\;#%`\n\r\t\0\x1a")


def gen(g, tier):
    kind = g.weighted([(3, "insert"), (3, "update"), (2, "delete"), (3, "plan")])
    if kind == "plan":
        rid = lambda: (texts.text(g, 1, 3).strip(" ") or "x")
        val = lambda: None if g.chance(12) else texts.text(g)
        live = {}
        for _ in range(g.int(0, 3)):
            live[rid()] = [val(), val()]
        want = {}
        for _ in range(g.int(1, 3)):
            want[rid()] = [val(), val()]
        for r in list(live):
            if g.chance(50):
                want[r] = live[r] if g.chance(30) else [val(), val()]
        return {"kind": kind, "live": live, "want": want, "spell": g.int(0, 30)}
    cols = g.some(COLS, 0 if kind == "insert" else 1, 3)
    id_ = ["int", str(g.int(1, 99))] if g.chance(25) else ["text", texts.text(g, 1, 4) or "x"]
    case = {"kind": kind, "core": g.chance(50), "table": g.pick(NAMES), "obj": g.chance(30), "id": id_, "data": [[c, texts.dbvalue(g)] for c in cols], "idpos": g.int(0, len(cols))}
    return case


class Named:
    def __init__(self, name):
        self.name = name


def nasty(v):
    return isinstance(v, str) and (any(c in NASTY or ord(c) > 126 for c in v) or "--" in v or "/*" in v or v.upper() in ("NULL", "NONE"))


def run(case, ev):
    ev.label(case["kind"])
    if case["kind"] == "plan":
        return run_plan(case, ev)
    if case["core"]:
        from mygrations.core.operations.add_row import AddRow as Ins
        from mygrations.core.operations.change_row import ChangeRow as Upd
        from mygrations.core.operations.remove_row import RemoveRow as Del
    else:
        from mygrations.formats.mysql.mygrations.operations.row_insert import RowInsert as Ins
        from mygrations.formats.mysql.mygrations.operations.row_update import RowUpdate as Upd
        from mygrations.formats.mysql.mygrations.operations.row_delete import RowDelete as Del
    rid = texts.pyvalue(case["id"])
    items = [(c, texts.pyvalue(v)) for c, v in case["data"]]
    items.insert(min(case["idpos"], len(items)), ("id", rid))
    data = dict(items)
    arg = Named(case["table"]) if case["obj"] else case["table"]
    kind = case["kind"]
    op = Ins(arg, data) if kind == "insert" else (Upd(arg, data) if kind == "update" else Del(arg, rid))
    if op.table_name != case["table"]:
        raise Violation("table name is %r" % op.table_name)
    sql = str(op)
    if any(nasty(v) for v in data.values()):
        ev.nontrivial()
    exp = lambda v: ("null",) if v is None else ("str", str(v))
    try:
        v = sim.parse(sql)
    except sim.SqlError as e:
        raise Violation("not one statement: %s\n%s" % (e, sql))
    if v[0] != kind or v[1] != case["table"]:
        raise Violation("statement is %r, not %s of %s\n%s" % (v[:2], kind, case["table"], sql))
    same = lambda lit, val: lit == exp(val) or (lit[0] == "num" and val is not None and lit[1] == str(val))
    if kind == "insert":
        if v[2] != list(data) or len(v[3]) != 1 or not all(same(a, b) for a, b in zip(v[3][0], data.values())) or len(v[3][0]) != len(data):
            raise Violation("the statement stores %r, not %r\n%s" % (v[2:], data, sql))
    elif kind == "update":
        got = [(c, x) for c, x in v[2] if c != "id"]
        want = [(c, x) for c, x in data.items() if c != "id"]
        if [c for c, _ in got] != [c for c, _ in want] or not all(same(a[1], b[1]) for a, b in zip(got, want)):
            raise Violation("the statement sets %r, not %r\n%s" % (got, want, sql))
        if any(c == "id" and not same(x, rid) for c, x in v[2]):
            raise Violation("the statement changes the id\n%s" % sql)
    if kind != "insert":
        w = v[3] if kind == "update" else v[2]
        if w is None or len(w) != 1 or w[0][0] != "id" or not same(w[0][1], rid):
            raise Violation("the statement is for the row(s) %r, not id %r\n%s" % (w, rid, sql))


def run_plan(case, ev):
    t = sim.Table("notes")
    t.cols = [sim.Col("id", "varchar", "255", False, False), sim.Col("a", "longtext"), sim.Col("b", "varchar", "1000")]
    t.keys = [sim.Key("PRIMARY", "PRIMARY", ["id"])]
    sv = sim.Server("8.0")
    sv.do_create(t)
    lit = lambda v: ("null",) if v is None else ("str", v)
    for r, (x, y) in case["live"].items():
        sv.do_insert("notes", ["id", "a", "b"], [[lit(r), lit(x), lit(y)]])
    sv.commit()
    s = render.S(case["spell"], 1)
    sql = "CREATE TABLE notes (`id` varchar(255) NOT NULL, `a` longtext, `b` varchar(1000), PRIMARY KEY (`id`));\n"
    sql += render.insert_sql(s, "notes", ["id", "a", "b"], [[r, x, y] for r, (x, y) in case["want"].items()])
    plan.need_valid(sql)
    conn = sim.Connection(sv)
    stmts = plan.apply(conn, sql)
    if any(nasty(v) for r, vs in case["want"].items() for v in [r] + vs):
        ev.nontrivial()
    got = {r["id"]: [r["a"], r["b"]] for r in sv.tables["notes"].rows}
    if got != case["want"]:
        raise Violation("the table holds %r, declared %r\nstatements:\n%s" % (got, case["want"], "\n".join(conn.writes)))
    for q in conn.writes:
        sim.parse(q)
