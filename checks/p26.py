"""P26: what an operation prints does on a server what the operation does in memory."""
import copy

import extract
import model
import p19
import render
import sim
from boot import Violation

from mygrations.core.operations.alter_table import AlterTable as CoreAlterTable
from mygrations.core.operations.create_table import CreateTable as CoreCreateTable
from mygrations.core.operations.disable_checks import DisableChecks as CoreDisableChecks
from mygrations.core.operations.enable_checks import EnableChecks as CoreEnableChecks
from mygrations.core.operations.remove_table import RemoveTable as CoreRemoveTable
from mygrations.formats.mysql.mygrations.operations.alter_table import AlterTable
from mygrations.formats.mysql.mygrations.operations.create_table import CreateTable
from mygrations.formats.mysql.mygrations.operations.disable_checks import DisableChecks
from mygrations.formats.mysql.mygrations.operations.enable_checks import EnableChecks
from mygrations.formats.mysql.mygrations.operations.remove_table import RemoveTable

PROPERTY = "P26"
RULE = "the server accepts two statements, or an ALTER TABLE with two operations"
ASSUMPTIONS = ["the server is lib/sim.py", "reference statements are written by lib/render.py"]
QUICK, THOROUGH = 700, 25000

FAMILY = ((AlterTable, CreateTable, RemoveTable, DisableChecks, EnableChecks), (CoreAlterTable, CoreCreateTable, CoreRemoveTable, CoreDisableChecks, CoreEnableChecks))


def gen(g, tier):
    s = model.gen_schema(g, {"odd": g.chance(60), "maxtables": 3, "mintables": 1, "maxcols": 5})
    now = copy.deepcopy(s)
    out = []
    for _ in range(g.int(1, 6)):
        batch = []
        for _ in range(g.weighted([(5, 1), (3, 2), (2, 4)])):
            op = p19.gen_op(g, now)
            if not op or (batch and op[1] != batch[0][1]):
                continue
            if op[0] in ("addcol", "chcol") and g.chance(40):
                n = op[2]["name"]
                op[2] = model.gen_type(g, n, g.chance(70), cs=op[2]["type"] in ("varchar", "char", "enum") and g.chance(50))
            # (a part of what an earlier part of the same statement made is nothing a plan would have)
            if batch and (op[0] in ("addtable", "rmtable") or batch[0][0] in ("addtable", "rmtable")):
                continue
            batch.append(op)
            now = p19.step(now, op) or now
        if batch:
            out.append({"ops": batch, "core": g.chance(50), "nice": g.chance(50), "obj": g.chance(50)})
    return {"schema": s, "batches": out, "style": g.pick(["8.0", "5.7"]), "checks": g.chance(70)}


def reference(op, table):
    """what the operation is, written without mygrations"""
    s = render.S(0, 0)
    what = op[0]
    q = lambda n: "`%s`" % n
    if what == "rmcol":
        return "DROP COLUMN %s" % q(op[2])
    x = op[2]
    if what == "addcol":
        where = "" if not op[3] else " FIRST" if op[3] is True else " AFTER %s" % q(op[3])
        return "ADD COLUMN %s%s" % (render.col_sql(s, x), where)
    if what == "chcol":
        return "MODIFY COLUMN %s" % render.col_sql(s, x)
    if what.endswith("key"):
        drop = "DROP PRIMARY KEY" if x["kind"] == "PRIMARY" else "DROP INDEX %s" % q(x["name"])
        add = "ADD %s" % render.key_sql(s, table, x)
    else:
        drop = "DROP FOREIGN KEY %s" % q(x["name"])
        add = "ADD CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s (%s) ON DELETE %s ON UPDATE %s" % (q(x["name"]), q(x["col"]), q(x["rtable"]), q(x["rcol"]), x["del"], x["upd"])
    return drop if what.startswith("rm") else add if what.startswith("add") else "%s, %s" % (drop, add)


def outcome(sv, text):
    """(what became of the server or None when it refuses, and why)"""
    sv = sv.clone()
    try:
        sv.execute(text)
    except sim.SqlError as e:
        return None, str(e)
    return sv, [(n, sv.show(t), [c.name for c in t.cols]) for n, t in sorted(sv.tables.items())]


def statements(batch, now, sv):
    """the printed statement of both families, and the reference"""
    what, out = batch["ops"][0][0], []
    for alter, create, remove, _, _ in FAMILY:
        name = batch["ops"][0][1]
        if what == "addtable":
            t = p19.table_object(name)
            op = create(t, batch["nice"])
            name = t.name
        elif what == "rmtable":
            op = remove(p19.Table(name) if batch["obj"] else name)
        else:
            op = alter(name)
            if op or len(op):
                raise Violation("an empty ALTER TABLE has %d operations" % len(op))
            parts = [p19.operation(x, alter is CoreAlterTable) for x in batch["ops"]]
            for p in parts:
                op.add_operation(p)
            if not op or len(op) != len(parts) or list(op) != parts:
                raise Violation("an ALTER TABLE of %d operations has %r" % (len(parts), list(op)))
        if op.table_name != name:
            raise Violation("%s is an operation for the table %s" % (op, op.table_name))
        out.append(str(op))
    name = batch["ops"][0][1]
    if what == "addtable":
        ref = render.create_sql(name, render.S(0, 0), False)
    elif what == "rmtable":
        ref = "DROP TABLE `%s`" % name
    else:
        ref = "ALTER TABLE `%s` %s" % (name, ", ".join(reference(x, model.tbl(now, name) or {"name": name, "cols": [], "keys": [], "fks": []}) for x in batch["ops"]))
    return out, ref


def run(case, ev):
    now = copy.deepcopy(case["schema"])
    sv = model.server(now, case["style"])
    db = p19.fresh(now)
    story, accepted = [], 0
    show = lambda: "\n  " + "\n  ".join(story)
    for family in FAMILY:
        for op, on in ((family[3](), False), (family[4](), True)):
            sv.execute(str(op))
            if sv.fk_checks is not on:
                raise Violation("%s does not switch foreign key checks" % op)
    if not case["checks"]:
        sv.execute(str(FAMILY[0][3]()))
    exact = True
    for batch in case["batches"]:
        then = now
        for op in batch["ops"]:
            then = p19.step(then, op) or then
            if any(k["kind"] == "PRIMARY" and model.col(t, n) and model.col(t, n)["null"] for t in then["tables"] for k in t["keys"] for n in k["cols"]):
                ev.label("primary key that can be null")
                return
        texts, ref = statements(batch, now, sv)
        story.extend(texts)
        after, want = outcome(sv, ref)
        for text in texts:
            x, got = outcome(sv, text)
            if (x is None) != (after is None):
                raise Violation("%s\n%s, but\n%s\n%s" % (text, "is refused: %s" % got if x is None else "is accepted", ref, "is refused: %s" % want if after is None else "is accepted"))
            if x is not None and got != want:
                raise Violation("%s\nleads to\n%s\nbut\n%s\nleads to\n%s" % (text, [g for g in got if g not in want], ref, [w for w in want if w not in got]))
            if x is None and errno(got) != errno(want):
                raise Violation("%s\nis refused for another reason: %s, not %s" % (text, got, want))
        if after is None:
            ev.label("refused")
            continue
        fits, then = True, now
        for op in batch["ops"]:
            new = p19.step(then, op)
            if new is None or parts_go(then, op):
                # what MySQL does by itself: keys lose the column
                fits = False
            then = new or then
        if not fits:
            ev.label("the server does more by itself")
            return
        accepted += 1
        ev.label(batch["ops"][0][0] if len(batch["ops"]) == 1 else "several")
        if len(batch["ops"]) > 1:
            ev.nontrivial()
        for op in batch["ops"]:
            p19.apply(db, op, batch["core"], batch["obj"])
        before, now, sv = now, then, after
        if any(op[0].endswith("fk") or op[0] == "addtable" and op[1]["fks"] for op in batch["ops"]):
            exact = False
        mine = {"tables": [extract.table(t) for t in db.tables.values()]}
        d = model.compare(model.server_as_model(sv), mine)
        if not exact:
            # MySQL adds and removes indexes for foreign keys by itself
            d = [x for x in d if not x.startswith("indexes of")]
        if d:
            raise Violation("after%s\nthe server differs from the tables in memory: %s" % (show(), "; ".join(d[:4])))
        for t in db.tables.values():
            order = [c.name for c in sv.tables[t.name].cols]
            if order != list(t.columns):
                raise Violation("after%s\nthe columns of %s are %r on the server, %r in memory" % (show(), t.name, order, list(t.columns)))
    if accepted > 1:
        ev.nontrivial()
        ev.label("several statements")


def errno(text):
    return text.split(")")[0].split(",")[0]


def parts_go(s, op):
    t = model.tbl(s, op[1]) if op[0] == "rmcol" else None
    return bool(t) and (any(op[2] in k["cols"] for k in t["keys"]) or any(f["col"] == op[2] for f in t["fks"]))
