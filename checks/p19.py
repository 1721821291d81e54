"""P19: in-memory definitions follow the operations applied to them."""
import copy
import extract
import model
import render
from boot import Violation

from mygrations.core.operations.add_column import AddColumn as CoreAddColumn
from mygrations.core.operations.add_constraint import AddConstraint as CoreAddConstraint
from mygrations.core.operations.add_index import AddIndex
from mygrations.core.operations.change_column import ChangeColumn as CoreChangeColumn
from mygrations.core.operations.change_constraint import ChangeConstraint as CoreChangeConstraint
from mygrations.core.operations.change_index import ChangeIndex
from mygrations.core.operations.remove_column import RemoveColumn as CoreRemoveColumn
from mygrations.core.operations.remove_constraint import RemoveConstraint as CoreRemoveConstraint
from mygrations.core.operations.remove_index import RemoveIndex
from mygrations.formats.mysql.definitions.table import Table
from mygrations.formats.mysql.file_reader.database import Database as FileDatabase
from mygrations.formats.mysql.mygrations.mygration import Mygration
from mygrations.formats.mysql.mygrations.operations.add_column import AddColumn
from mygrations.formats.mysql.mygrations.operations.add_constraint import AddConstraint
from mygrations.formats.mysql.mygrations.operations.add_key import AddKey
from mygrations.formats.mysql.mygrations.operations.change_column import ChangeColumn
from mygrations.formats.mysql.mygrations.operations.change_constraint import ChangeConstraint
from mygrations.formats.mysql.mygrations.operations.change_key import ChangeKey
from mygrations.formats.mysql.mygrations.operations.remove_column import RemoveColumn
from mygrations.formats.mysql.mygrations.operations.remove_constraint import RemoveConstraint
from mygrations.formats.mysql.mygrations.operations.remove_key import RemoveKey

PROPERTY = "P19"
RULE = "two tables or databases really differ, or a sequence of operations has at least two that fit, or one that does not"
ASSUMPTIONS = ["tables inside a database are changed through the database", "a second primary key is never added"]
QUICK, THOROUGH = 500, 20000

CLASSES = {"addcol": (AddColumn, CoreAddColumn), "chcol": (ChangeColumn, CoreChangeColumn), "rmcol": (RemoveColumn, CoreRemoveColumn), "addkey": (AddKey, AddIndex), "chkey": (ChangeKey, ChangeIndex), "rmkey": (RemoveKey, RemoveIndex),
           "addfk": (AddConstraint, CoreAddConstraint), "chfk": (ChangeConstraint, CoreChangeConstraint), "rmfk": (RemoveConstraint, CoreRemoveConstraint)}
NEWCOLS = ["name", "status", "kind", "created", "x", "c1", "order"]


def gen(g, tier):
    kind = g.weighted([(5, "ops"), (3, "to"), (2, "database")])
    opt = {"odd": g.chance(20), "maxtables": 3, "mintables": 1, "maxcols": 4}
    if kind != "ops":
        a, b = copy.deepcopy(model.gen_pair(g, opt))
        if kind == "database":
            # display widths are no difference, but foreign keys of tables in memory want them to match
            for c in [c for s in (a, b) for t in s["tables"] for c in t["cols"] if c["type"] in model.INTS]:
                c["len"] = None
        return {"kind": kind, "a": a, "b": b, "split": g.chance(50), "core": g.chance(50)}
    s = model.gen_schema(g, opt)
    ops = []
    now = copy.deepcopy(s)
    for _ in range(g.int(1, 8)):
        op = gen_op(g, now)
        if op:
            ops.append(op + [g.chance(40), g.chance(60), g.chance(50)])
            now = step(now, op) or now
    return {"kind": kind, "schema": s, "ops": ops}


def gen_op(g, s):
    wrong = g.chance(18)
    if g.chance(12) or not s["tables"]:
        if g.chance(50) or not s["tables"]:
            free = [n for n in model.TABLE_NAMES if not model.tbl(s, n)]
            n = g.pick(free) if not wrong or not s["tables"] else g.pick(s["tables"])["name"]
            alone = {"tables": [model.gen_table(g, n, {"odd": False, "maxcols": 3})]}
            if g.chance(30):
                # references to itself
                for _ in range(g.int(1, 2)):
                    model.add_fk(g, alone)
            model.repair(alone)
            return ["addtable", alone["tables"][0]] if alone["tables"] else None
        return ["rmtable", g.pick(s["tables"])["name"] if not wrong else g.pick([n for n in model.TABLE_NAMES if not model.tbl(s, n)])]
    t = g.pick(s["tables"])
    tn = t["name"] if not g.chance(3) else "gone9"
    cols = [c["name"] for c in t["cols"]]
    ks = [k for k in t["keys"] if k["kind"] != "PRIMARY"]
    pk = next((k for k in t["keys"] if k["kind"] == "PRIMARY"), None)
    what = g.pick(["addcol", "addcol", "chcol", "rmcol", "addkey", "addkey", "chkey", "rmkey", "rmkey", "addfk", "chfk", "rmfk", "pk"])
    other = lambda have: [n for n in NEWCOLS + ["gone9"] if n not in have] or ["c9%d" % len(have)]
    if what == "addcol":
        n = g.pick(cols) if wrong and cols and g.chance(50) else g.pick(other(cols))
        pos = g.pick([False, True] + cols) if not wrong else g.pick(["gone9", n] + cols)
        return [what, tn, model.gen_type(g, n, g.chance(20)), pos]
    if what == "chcol":
        n = g.pick(other(cols)) if wrong or not cols else g.pick(cols)
        return [what, tn, model.gen_type(g, n, g.chance(20))]
    if what == "rmcol":
        return [what, tn, g.pick(other(cols)) if wrong or not cols else g.pick(cols)]
    keyable = cols + (["gone9"] if g.chance(10) else [])
    if what in ("addkey", "chkey"):
        have = [k["name"] for k in ks]
        new = [n for n in model.KEY_NAMES + cols if n not in have]
        if (what == "addkey") != wrong or not have:
            n = g.pick(new)
        else:
            n = g.pick(have)
        if not keyable:
            return None
        return [what, tn, {"kind": g.pick(["INDEX", "UNIQUE"]), "name": n, "cols": g.some(keyable, 1, 3)}]
    if what == "rmkey":
        have = [k["name"] for k in ks]
        if wrong or not have:
            n = g.pick([n for n in model.KEY_NAMES if n not in have])
            return [what, tn, {"kind": "INDEX", "name": n, "cols": g.some(cols or ["x"], 1, 1)}]
        return [what, tn, dict(g.pick(ks))]
    if what == "pk":
        if pk is None:
            return ["addkey", tn, {"kind": "PRIMARY", "name": None, "cols": g.some(cols, 1, 2)}] if cols else None
        if g.chance(40):
            return ["rmkey", tn, dict(pk)]
        return ["chkey", tn, {"kind": "PRIMARY", "name": None, "cols": g.some(cols, 1, 2)}] if cols else None
    have = [f["name"] for f in t["fks"]]
    new = [n for n in model.FK_NAMES if n not in have]
    if what == "rmfk":
        f = dict(g.pick(t["fks"])) if t["fks"] and not wrong else None
        return [what, tn, f or {"name": g.pick(new), "col": "x", "rtable": "a", "rcol": "id", "del": "CASCADE", "upd": "CASCADE"}]
    n = g.pick(new) if (what == "addfk") != wrong or not have else g.pick(have)
    r = g.pick(s["tables"])
    return [what, tn, {"name": n, "col": g.pick(cols or ["x"]), "rtable": g.pick([r["name"]] * 6 + ["gone9"]), "rcol": g.pick([c["name"] for c in r["cols"]] + ["id"]), "del": g.pick(model.ACTIONS), "upd": g.pick(model.ACTIONS)}]


def step(s, op):
    """the model: the schema after the operation, or None when it is refused"""
    s = copy.deepcopy(s)
    what = op[0]
    if what == "addtable":
        if model.tbl(s, op[1]["name"]):
            return None
        s["tables"].append(copy.deepcopy(op[1]))
        return s
    t = model.tbl(s, op[1])
    if t is None:
        return None
    if what == "rmtable":
        s["tables"].remove(t)
        return s
    x = copy.deepcopy(op[2])
    if what.endswith("col"):
        names = [c["name"] for c in t["cols"]]
        n = x if what == "rmcol" else x["name"]
        if (n in names) == (what == "addcol"):
            return None
        if what == "rmcol":
            t["cols"] = [c for c in t["cols"] if c["name"] != n]
        elif what == "chcol":
            t["cols"][names.index(n)] = x
        elif op[3] is True:
            t["cols"].insert(0, x)
        elif not op[3]:
            t["cols"].append(x)
        elif op[3] not in names:
            return None
        else:
            t["cols"].insert(names.index(op[3]) + 1, x)
        return s
    part = "keys" if what.endswith("key") else "fks"
    same = lambda y: y["name"] == x["name"] and (part == "fks" or (y["kind"] == "PRIMARY") == (x["kind"] == "PRIMARY"))
    at = next((i for i, y in enumerate(t[part]) if same(y)), None)
    if (at is not None) == what.startswith("add"):
        return None
    if what.startswith("add"):
        t[part].append(x)
    elif what.startswith("ch"):
        t[part][at] = x
    else:
        del t[part][at]
    return s


# ------------------------------------------------------------ fresh objects

def column_object(c):
    db = FileDatabase(render.create_sql({"name": "p9", "cols": [c], "keys": [], "fks": [], "opts": [], "rows": None}, render.S(0)))
    return db.tables["p9"].columns[c["name"]]


def key_object(k):
    cols = [model.mkcol(n, "int") for n in k["cols"]]
    db = FileDatabase(render.create_sql({"name": "p9", "cols": cols, "keys": [k], "fks": [], "opts": [], "rows": None}, render.S(0)))
    return list(db.tables["p9"].indexes.values())[0]


def fk_object(f):
    db = FileDatabase(render.create_sql({"name": "p9", "cols": [model.mkcol(f["col"], "int")], "keys": [], "fks": [f], "opts": [], "rows": None}, render.S(0)))
    return list(db.tables["p9"].constraints.values())[0]


def table_object(t):
    return Table(t["name"], [column_object(c) for c in t["cols"]], [key_object(k) for k in t["keys"]], [fk_object(f) for f in t["fks"]])


def fresh(s):
    db = FileDatabase("")
    for t in s["tables"]:
        db.add_table(table_object(t))
    return db


def strip(t):
    """what is compared: order of columns, definitions, keys and foreign keys (in any order)"""
    kk = lambda k: (k["kind"], k["name"] or "", tuple(k["cols"]))
    return (t["name"], [(c["name"], model.col_tuple(c), c["cs"], c["coll"]) for c in t["cols"]], sorted(map(kk, t["keys"])), sorted((f["name"],) + model.fk_tuple(f) for f in t["fks"]))


def facts(db, warm=True):
    """everything that can be seen of a database"""
    out = []
    for n, t in db.tables.items():
        m = extract.table(t)
        cols = list(t.columns)
        out.append((n, strip(m), [t.column_before(c) for c in cols], [c for c in cols + ["gone8"] if t.column_is_indexed(c)], list(t.primary.columns) if t.primary else None, sorted(t.schema_errors), sorted(t.schema_warnings), sorted(db.unfulfilled_fks(t)), str(t)))
    return out, sorted(db.errors), sorted(db.warnings)


def difference(x, y):
    for i, (a, b) in enumerate(zip(x[0], y[0])):
        for p, q in zip(a, b):
            if p != q:
                return "table %s: %r, expected %r" % (a[0], p, q)
    if [a[0] for a in x[0]] != [a[0] for a in y[0]]:
        return "tables %r, expected %r" % ([a[0] for a in x[0]], [a[0] for a in y[0]])
    return "errors %r, expected %r / warnings %r, expected %r" % (x[1], y[1], x[2], y[2])


def expected(s):
    f = facts(fresh(s))
    # and what the plain model says by itself
    for t, x in zip(s["tables"], f[0]):
        cols = [c["name"] for c in t["cols"]]
        pk = next((k for k in t["keys"] if k["kind"] == "PRIMARY"), None)
        want = (t["name"], strip(t), [True] + cols[:-1] if cols else [], [c for c in cols if any(k["cols"][0] == c for k in t["keys"])], pk["cols"] if pk else None)
        mine = canon(x[:5]), canon(want)
        if mine[0] != mine[1]:
            raise Violation("a new table %r is seen as %r" % (want, x[:5]))
    return f


def canon(x):
    """implied lengths and the like do not matter"""
    return (x[0], x[1][0], [(c[0], c[1][0]) for c in x[1][1]]) + tuple(x[1][2:]) + tuple(x[2:])


def run(case, ev):
    ev.label(case["kind"])
    if case["kind"] == "ops":
        return run_ops(case, ev)
    a, b = FileDatabase(render.schema_sql(case["a"], 0)), FileDatabase(render.schema_sql(case["b"], 0))
    if case["kind"] == "database":
        return run_database(case, ev, a, b)
    for n, ta in list(a.tables.items()):
        if n not in b.tables:
            continue
        tb = b.tables[n]
        ta.column_is_indexed("id"), ta.schema_errors, ta.primary
        ops = ta.to(tb, case["split"])
        alters = [ops[k] for k in ("removed_fks", "kitchen_sink", "fks") if k in ops] if case["split"] else ops
        text = []
        for alter in alters:
            for op in alter:
                ta.apply_operation(op)
                text.append(str(op))
        if text:
            ev.nontrivial()
            ev.label("different tables")
        same_table(ta, tb, model.tbl(case["a"], n), model.tbl(case["b"], n), text)


def same_table(ta, tb, before, want, text):
    show = "\n  ".join(text)
    left = [str(x) for x in ta.to(tb)] + [str(x) for x in tb.to(ta)]
    if left:
        raise Violation("after applying\n  %s\nthere still is a difference: %r" % (show, left))
    d = model.compare({"tables": [extract.table(ta)]}, {"tables": [want]}, old={"tables": [before]})
    if d:
        raise Violation("after applying\n  %s\nthe table differs: %r" % (show, d))
    for c in ta.columns:
        if ta.column_is_indexed(c) != tb.column_is_indexed(c):
            raise Violation("after applying\n  %s\ncolumn %s is indexed: %r" % (show, c, ta.column_is_indexed(c)))
    if (list(ta.primary.columns) if ta.primary else None) != (list(tb.primary.columns) if tb.primary else None):
        raise Violation("after applying\n  %s\nthe primary key is %r" % (show, ta.primary and ta.primary.columns))
    if sorted(ta.schema_errors) != sorted(tb.schema_errors):
        raise Violation("after applying\n  %s\nthe errors are %r, not %r" % (show, ta.schema_errors, tb.schema_errors))


def run_database(case, ev, a, b):
    """the whole plan between two databases, in memory"""
    a.errors, a.warnings
    plan = Mygration(b, a, False)
    text = []
    before = case["a"]
    for op in plan.operations:
        text.append(str(op))
        t = op.table_name
        if text[-1].startswith("DROP TABLE"):
            a.remove_table(a.tables[t])
        elif text[-1].startswith("CREATE TABLE"):
            a.add_table(op.table)
        else:
            for x in op:
                a.apply_operation(t, x)
    if text:
        ev.nontrivial()
    # tables which were created may still wait for foreign keys: those come later in the plan
    if set(a.tables) != set(b.tables):
        raise Violation("after the plan\n  %s\nthe tables are %r" % ("\n  ".join(text), list(a.tables)))
    for n in b.tables:
        t = model.tbl(before, n)
        same_table(a.tables[n], b.tables[n], t or {"name": n, "cols": []}, model.tbl(case["b"], n), text) if t else None
    left = Mygration(b, a, False).operations
    if left:
        raise Violation("after the plan\n  %s\nthere is still something to do:\n  %s" % ("\n  ".join(text), "\n  ".join(map(str, left))))
    if sorted(a.errors) != sorted(b.errors) or sorted(a.warnings) != sorted(b.warnings):
        raise Violation("after the plan\n  %s\nthe errors are %r" % ("\n  ".join(text), a.errors))


def run_ops(case, ev):
    now = case["schema"]
    db = fresh(now)
    story = []
    show = lambda: "\n  ".join(story)
    fits = 0
    for what, *rest in case["ops"]:
        *args, core, look, byname = rest
        if look:
            facts(db)
        op = [what] + args
        new = step(now, op)
        story.append("%s %r%s" % (what, args, "" if new else " (does not fit)"))
        ev.label(what if new else what + " refused")
        before = facts(db) if new is None else None
        error = None
        try:
            apply(db, op, core, byname)
        except Exception as e:
            error = e
        if new is None:
            ev.nontrivial()
            if error is None:
                raise Violation("this operation is not refused:\n  %s" % show())
            after = facts(db)
            if after != before:
                raise Violation("a refused operation changes something: %s\n  %s" % (difference(after, before), show()))
            continue
        if error is not None:
            raise Violation("%s: %s\n  %s" % (type(error).__name__, error, show()))
        fits += 1
        now = new
    if fits > 1:
        ev.nontrivial()
    got, want = facts(db), expected(now)
    if order(got) != order(want):
        raise Violation("after\n  %s\n%s" % (show(), difference(order(got), order(want))))
    # once more, from what is known by now
    if order(facts(db)) != order(want):
        raise Violation("seen a second time, after\n  %s\n%s" % (show(), difference(order(facts(db)), order(want))))


def order(f):
    """tables in the same order"""
    return sorted(f[0], key=lambda x: x[0]), f[1], f[2]


def operation(op, core):
    what = op[0]
    cls = CLASSES[what][core]
    if what == "addcol":
        return cls(column_object(op[2]), op[3])
    elif what == "rmcol":
        return cls(column_object(model.mkcol(op[2], "int")))
    elif what == "chcol":
        return cls(column_object(op[2]))
    elif what.endswith("key"):
        return cls(key_object(op[2]))
    else:
        return cls(fk_object(op[2]))


def apply(db, op, core, byname):
    what = op[0]
    if what == "addtable":
        return db.add_table(table_object(op[1]))
    if what == "rmtable":
        t = db.tables.get(op[1])
        return db.remove_table(t if t is not None else Table(op[1]))
    x = operation(op, core)
    t = op[1]
    if byname and t in db.tables:
        t = db.tables[t]
    db.apply_operation(t, x)
