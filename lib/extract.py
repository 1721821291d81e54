"""Reads definitions out of the code under test, through its public attributes only."""
import model


def column(c):
    ln = c.length
    if isinstance(ln, (list, tuple)):
        ln = None
    ty = c.column_type.lower()
    d = c.default
    return dict(name=c.name, type=ty, len=None if ln in (None, "") else str(ln), unsigned=bool(c.unsigned), null=bool(c.null), default=None if d is None else str(d),
                ai=bool(c.auto_increment), enum=list(c.enum_values) if c.enum_values else None, cs=c.character_set.lower() if c.character_set else None, coll=c.collate.lower() if c.collate else None)


def index(k):
    return {"kind": k.index_type, "name": None if k.index_type == "PRIMARY" else k.name, "cols": [x if isinstance(x, str) else x.name for x in k.columns]}


def constraint(f):
    return {"name": f.name, "col": f.column_name, "rtable": f.foreign_table_name, "rcol": f.foreign_column_name, "del": f.on_delete, "upd": f.on_update}


def table(t):
    return {"name": t.name, "cols": [column(c) for c in t.columns.values()], "keys": [index(k) for k in t.indexes.values()], "fks": [constraint(f) for f in t.constraints.values()],
            "opts": [[o.name, o.value] for o in t.options], "rows": None}


def rows(t):
    """None when not tracked, else id -> {col: value}"""
    if not t.tracking_rows:
        return None
    return {k: dict(v) for k, v in (t.rows or {}).items()}


def database(db):
    return {"tables": [table(t) for t in db.tables.values()]}
