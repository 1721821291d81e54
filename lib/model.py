"""Schema model (plain JSON values), valid-by-construction generators, edits,
and the bridge to the simulated server.

schema = {"tables": [table, ...]}
table  = {"name", "cols": [col], "keys": [key], "fks": [fk], "opts": [[name, value]], "rows": None | [ {col: text|None} ]}
col    = {"name", "type", "len", "unsigned", "null", "default", "ai", "enum", "cs", "coll"}   (default: None | text | "CURRENT_TIMESTAMP")
key    = {"kind": PRIMARY|UNIQUE|INDEX, "name": str|None, "cols": [..]}
fk     = {"name", "col", "rtable", "rcol", "del", "upd"}
"""
import copy
import decimal
import os
import re
import hypothesis
from hypothesis import strategies as st
import boot
import sim

INTS = ["tinyint", "smallint", "mediumint", "int", "bigint"]
TEXTS = ["tinytext", "text", "mediumtext", "longtext", "tinyblob", "blob", "mediumblob", "longblob", "json"]
NOKEY = set(TEXTS)
DATES = ["date", "datetime", "timestamp", "time", "year"]

TABLE_NAMES = ["users", "accounts", "tasks", "logs", "orders_x", "types", "status", "a", "vendor_w9s", "Mixed_Case", "group", "my table"]
COL_NAMES = ["name", "status", "account_id", "user_id", "kind", "unique_id", "key_id", "index_no", "primary_no", "constraint_a", "foreign_id",
             "created", "date", "text", "type", "comment_a", "default_x", "null_a", "not_x", "unsigned_x", "value_a", "is_on", "parent_id", "x", "Amount", "c1", "order", "full name", "a(b)", "x;y", "key", "1st", "prix-é"]
CS_NAMES = ["cs_a", "cs_b"]
KEY_NAMES = ["k1", "k2", "k3", "idx_name", "unique_k", "key_k", "by_account", "Z_Key", "desc", "idx (1)"]
FK_NAMES = ["fk1", "fk2", "fk3", "fk4", "accounts_fk", "link_ref", "t_ibfk_1", "references", "fk-1, x"]
ACTIONS = ["RESTRICT", "CASCADE", "SET NULL", "NO ACTION"]


class G:
    """choices, drawn through hypothesis so that failures shrink"""

    def __init__(self, draw):
        self.draw = draw

    def int(self, a, b):
        return a if a >= b else self.draw(st.integers(a, b))

    def chance(self, pct):
        """true with this percentage; shrinks to False"""
        return self.draw(st.integers(0, 99)) >= 100 - pct

    def pick(self, seq):
        seq = list(seq)
        return seq[self.int(0, len(seq) - 1)]

    def some(self, seq, lo, hi):
        """a subset in random order"""
        seq = list(seq)
        out = []
        for _ in range(self.int(lo, min(hi, len(seq)))):
            out.append(seq.pop(self.int(0, len(seq) - 1)))
        return out

    def weighted(self, pairs):
        total = sum(w for w, _ in pairs)
        n = self.int(0, total - 1)
        for w, v in pairs:
            if n < w:
                return v
            n -= w


def cases(fn):
    """hypothesis strategy of the values built by fn(G)"""
    @st.composite
    def build(draw):
        try:
            return fn(G(draw))
        except hypothesis.errors.HypothesisException:
            raise
        except Exception:
            # a case that can't be built is no case
            if os.environ.get("VERIF_STRICT"):
                raise
            hypothesis.reject()
    return build()


# ------------------------------------------------------------ columns

def mkcol(name, type, len=None, unsigned=False, null=True, default=None, ai=False, enum=None, cs=None, coll=None):
    return dict(name=name, type=type, len=len, unsigned=unsigned, null=null, default=default, ai=ai, enum=enum, cs=cs, coll=coll)


DEFAULT_WORDS = ["", "x", "abc", "0", "12", "a-b", "Some.Thing", "http://x.y/z?q=1", "n/a", "NULL_", "é"]
ODD_DEFAULTS = ["a b", "a, b", "(x)", "it's", "back\\slash", "x--y", "a#b", "two  spaces", ";", "DEFAULT 'x'", "/*c*/", "NULL", "'", "trailing ", "CURRENT_TIMESTAMP", '"q"', "tab\tin"]


def gen_type(g, name, odd=True, cs=False):
    """a column definition with this name"""
    kind = g.weighted([(30, "int"), (18, "varchar"), (6, "char"), (7, "decimal"), (5, "float"), (9, "date"), (9, "text"), (6, "enum"), (3, "binary"), (3, "bool")])
    c = mkcol(name, "int")
    c["null"] = not g.chance(50)
    hasdef = g.chance(45)
    if cs:
        kind = g.pick(["varchar", "char", "enum"])
    if kind == "int":
        c["type"] = g.weighted([(8, "int"), (2, "bigint"), (2, "tinyint"), (1, "smallint"), (1, "mediumint")])
        c["unsigned"] = g.chance(50)
        c["len"] = g.pick([None, "10", "11", "4"])
        if hasdef:
            c["default"] = g.pick(["0", "1", "7", "100"] if c["unsigned"] else ["0", "1", "-1", "42"])
    elif kind == "bool":
        c["type"], c["len"] = "tinyint", "1"
        if hasdef:
            c["default"] = g.pick(["0", "1"])
    elif kind == "decimal":
        c["type"] = "decimal"
        c["len"] = g.pick(["10,2", "20,5", "5,0", "8,3"])
        c["unsigned"] = g.chance(25)
        if hasdef:
            c["default"] = g.pick(["0", "1.50", "0.00", "12", "3.1"])
            c["default"] = norm_decimal(c["default"], c["len"]) if g.chance(60) else c["default"]
    elif kind == "float":
        c["type"] = g.pick(["float", "double"])
        c["unsigned"] = g.chance(20)
        if hasdef:
            c["default"] = g.pick(["0", "0.5", "2.25", "-1.5"] if not c["unsigned"] else ["0", "0.5"])
    elif kind == "date":
        c["type"] = g.pick(DATES)
        if hasdef:
            c["default"] = {"date": "2020-01-31", "datetime": g.pick(["CURRENT_TIMESTAMP", "2020-01-31 10:11:12"]), "timestamp": g.pick(["CURRENT_TIMESTAMP", "2020-01-31 10:11:12"]), "time": "10:11:12", "year": "2020"}[c["type"]]
            if " " in c["default"] and not odd:
                c["default"] = "CURRENT_TIMESTAMP"
    elif kind == "text":
        c["type"] = g.pick(["text", "mediumtext", "longtext", "tinytext", "blob", "longblob", "json"])
    elif kind in ("varchar", "char", "binary"):
        c["type"] = {"varchar": "varchar", "char": "char", "binary": g.pick(["binary", "varbinary"])}[kind]
        c["len"] = g.pick(["255", "20", "64", "30"]) if kind != "binary" else g.pick(["16", "32"])
        if hasdef and kind != "binary":
            words = DEFAULT_WORDS + (ODD_DEFAULTS if odd else [])
            c["default"] = g.pick(words)
            if kind == "char":
                c["default"] = c["default"].rstrip()
        elif hasdef and c["type"] == "varbinary":
            c["default"] = g.pick(["", "x", "abc", "12"])
    elif kind == "enum":
        c["type"] = g.weighted([(4, "enum"), (1, "set")])
        pool = ["young", "middle", "old", "a", "B2", "x-y"] + (["two words", "it's", "a(b)", "semi;colon", "back\\slash"] if odd else [])
        c["enum"] = g.some(pool, 1, 4)
        if hasdef:
            c["default"] = g.pick(c["enum"])
    if c["type"] in ("varchar", "char", "enum") and cs:
        c["cs"], c["coll"] = g.pick(CHARSETS)
        if c["default"] == "é":
            c["default"] = "e"
    return c


CHARSETS = [(None, None), ("latin1", None), ("utf8mb4", "utf8mb4_bin"), (None, "utf8mb4_bin"), ("latin1", "latin1_bin"), ("utf8mb4", None), ("utf8mb4", "utf8mb4_unicode_ci")]


def norm_decimal(text, ln):
    s = int(ln.split(",")[1])
    return str(decimal.Decimal(text).quantize(decimal.Decimal(1).scaleb(-s), rounding=decimal.ROUND_HALF_UP))


def has_null_default_conflict(c):
    return False


LINKABLE = set(INTS) | {"varchar", "char", "date", "decimal"}


# ------------------------------------------------------------ tables

def gen_table(g, name, opt):
    t = {"name": name, "cols": [], "keys": [], "fks": [], "opts": [], "rows": None}
    names = list(COL_NAMES)
    if g.chance(96 if opt.get("track") else 80):
        c = mkcol("id", "int", g.pick(["10", None, "11"]), g.chance(70), False)
        if g.chance(15):
            c["type"] = "bigint"
        if g.chance(8):
            c = mkcol("id", "varchar", "20", False, False)
        elif g.chance(60):
            c["ai"] = True
        t["cols"].append(c)
        t["keys"].append({"kind": "PRIMARY", "name": None, "cols": ["id"]})
    for n in g.some(names, 0 if t["cols"] else 1, opt.get("maxcols", 4)):
        t["cols"].append(gen_type(g, n, opt.get("odd", True)))
    if g.chance(15):
        t["cols"].append(gen_type(g, g.pick(CS_NAMES), opt.get("odd", True), cs=True))
    if not t["keys"] and g.chance(60):
        ks = [c["name"] for c in t["cols"] if c["type"] not in NOKEY]
        if ks:
            t["keys"].append({"kind": "PRIMARY", "name": None, "cols": g.some(ks, 1, 2)})
    for _ in range(g.int(0, opt.get("maxkeys", 2))):
        add_key(g, t)
    if g.chance(60):
        t["opts"] = [["ENGINE", "InnoDB"], ["DEFAULT CHARSET", "utf8mb4"]]
    return t


def add_key(g, t):
    ks = [c["name"] for c in t["cols"] if c["type"] not in NOKEY]
    if not ks:
        return
    nm = g.pick(KEY_NAMES) if not g.chance(25) else g.pick(ks)
    k = {"kind": g.weighted([(3, "INDEX"), (2, "UNIQUE")]), "name": nm, "cols": g.some(ks, 1, 3)}
    if nm in ks and g.chance(50):
        k["cols"] = [nm] + [n for n in k["cols"] if n != nm]
    t["keys"].append(k)


def add_fk(g, s):
    """link a column to an indexed column somewhere"""
    parents = []
    for t in s["tables"]:
        for k in t["keys"]:
            c = col(t, k["cols"][0]) if k["cols"] else None
            if c and c["type"] in LINKABLE and not c["name"].startswith("cs_"):
                parents.append((t, c))
    if not parents:
        return
    pt, pc = g.pick(parents)
    ct = g.pick(s["tables"])
    cand = [c for c in ct["cols"] if not c["ai"] and not c["name"].startswith("cs_") and not (ct is pt and c is pc)]
    if cand and g.chance(65):
        c = g.pick(cand)
        copytype(pc, c)
    else:
        free = [n for n in ["account_id", "user_id", "parent_id", "foreign_id", "x"] if not col(ct, n)]
        if not free:
            return
        c = mkcol(g.pick(free), "int", null=g.chance(60))
        copytype(pc, c)
        ct["cols"].insert(g.int(0, len(ct["cols"])), c)
    n = g.int(0, 9)
    if n < 5:
        nm = g.pick(FK_NAMES)
    elif n < 8:
        nm = ("%s_%s_%s_fk" % (ct["name"], c["name"], pt["name"]))[:64]
    else:
        nm = "%s_ibfk_%d" % (ct["name"], g.int(1, 3))
    ct["fks"].append({"name": nm, "col": c["name"], "rtable": pt["name"], "rcol": pc["name"], "del": g.pick(ACTIONS), "upd": g.pick(ACTIONS)})
    if not any(k["cols"] and k["cols"][0] == c["name"] for k in ct["keys"]):
        ct["keys"].append({"kind": "INDEX", "name": g.pick([nm, c["name"] + "_k", c["name"]]), "cols": [c["name"]]})


def copytype(src, dst):
    for a in ("type", "len", "unsigned", "enum", "cs", "coll"):
        dst[a] = copy.deepcopy(src[a])
    if dst["default"] is not None:
        dst["default"] = "0" if dst["type"] in INTS + ["decimal", "float", "double"] else ("z" if dst["type"] in ("varchar", "char") else (dst["enum"][0] if dst["enum"] else None))
    if dst["type"] == "decimal" and dst["default"] is not None:
        dst["default"] = norm_decimal("0", dst["len"])


def gen_schema(g, opt=None):
    opt = opt or {}
    s = {"tables": []}
    for n in g.some(TABLE_NAMES, opt.get("mintables", 0), opt.get("maxtables", 3)):
        s["tables"].append(gen_table(g, n, opt))
    for _ in range(g.int(0, opt.get("maxfks", 3))):
        if s["tables"]:
            add_fk(g, s)
    return repair(s)


def tbl(s, name):
    return next((t for t in s["tables"] if t["name"] == name), None)


def col(t, name):
    return next((c for c in t["cols"] if c["name"] == name), None)


# ------------------------------------------------------------ validity

def repair(s):
    """smallest changes that make a schema valid for MySQL 8 and for the rules the tool documents"""
    seen = set()
    tabs = []
    for t in s["tables"]:
        if t["name"].lower() in seen:
            continue
        seen.add(t["name"].lower())
        tabs.append(t)
    s["tables"] = tabs
    for t in tabs:
        cs, names = [], set()
        for c in t["cols"]:
            if c["name"].lower() not in names:
                names.add(c["name"].lower())
                cs.append(c)
        t["cols"] = cs or [mkcol("x", "int")]
        for c in t["cols"]:
            fix_default(c)
    fix_keys(s)
    for _ in range(6):
        if not link_types(s):
            break
    fix_keys(s)
    for t in tabs:
        for c in t["cols"]:
            fix_default(c)
        t["fks"] = [f for f in t["fks"] if fk_ok(s, t, f)]
    names = set()
    for t in tabs:
        out = []
        for f in t["fks"]:
            if f["name"].lower() in names:
                n = 2
                while "%s_%d" % (f["name"].lower(), n) in names:
                    n += 1
                f["name"] = "%s_%d" % (f["name"], n)
            names.add(f["name"].lower())
            if not col(t, f["col"])["null"]:
                for a in ("del", "upd"):
                    if f[a] == "SET NULL":
                        f[a] = "CASCADE"
            out.append(f)
        t["fks"] = out
    return s


def fix_default(c):
    d = c["default"]
    if d is not None and (c["type"] in TEXTS or (c["unsigned"] and d.startswith("-"))):
        c["default"] = None


def fix_keys(s):
    for t in s["tables"]:
        keys, names, pk = [], set(), None
        for k in t["keys"]:
            cols = []
            for n in k["cols"]:
                c = col(t, n)
                if c and c["type"] not in NOKEY and n not in cols:
                    cols.append(n)
            if cols and k["kind"] == "PRIMARY" and pk is None:
                pk = k
                k["cols"] = cols
        for k in t["keys"]:
            cols = []
            for n in k["cols"]:
                c = col(t, n)
                if c and c["type"] not in NOKEY and n not in cols:
                    cols.append(n)
            k["cols"] = cols
            if not cols:
                continue
            if k["kind"] == "PRIMARY":
                if k is pk:
                    keys.append(k)
                continue
            nm = k["name"] or cols[0]
            if nm.lower() in names or nm.lower() == "primary":
                n = 2
                while "%s_%d" % (nm.lower(), n) in names:
                    n += 1
                nm = "%s_%d" % (nm, n)
            k["name"] = nm
            names.add(nm.lower())
            keys.append(k)
        t["keys"] = keys
        for c in t["cols"]:
            if pk and c["name"] in pk["cols"]:
                c["null"] = False
            if c["ai"] and (not pk or pk["cols"][0] != c["name"] or c["type"] not in INTS):
                c["ai"] = False
        ai = [c for c in t["cols"] if c["ai"]]
        for c in ai:
            c["null"], c["default"] = False, None
        for c in t["cols"]:
            if not c["null"] and c["default"] == "NULL_" and c["type"] == "enum":
                pass


def fk_ok(s, t, f):
    c = col(t, f["col"])
    p = tbl(s, f["rtable"])
    pc = p and col(p, f["rcol"])
    if not c or not pc or c is pc:
        return False
    if any(c[a] != pc[a] for a in ("type", "len", "unsigned", "enum", "cs", "coll")) or c["type"] not in LINKABLE:
        return False
    if c["name"].startswith("cs_") or pc["name"].startswith("cs_"):
        return False
    first = lambda tt: set(k["cols"][0] for k in tt["keys"])
    return c["name"] in first(t) and pc["name"] in first(p)


def link_types(s):
    """child columns take the type of their parent column; children get an index"""
    changed = False
    for t in s["tables"]:
        for f in t["fks"]:
            c = col(t, f["col"])
            p = tbl(s, f["rtable"])
            pc = p and col(p, f["rcol"])
            if not c or not pc or c is pc:
                continue
            if any(c[a] != pc[a] for a in ("type", "len", "unsigned", "enum", "cs", "coll")) and not c["ai"]:
                copytype(pc, c)
                changed = True
            if c["type"] in LINKABLE and not any(k["cols"] and k["cols"][0] == c["name"] for k in t["keys"]):
                t["keys"].append({"kind": "INDEX", "name": c["name"] + "_ix", "cols": [c["name"]]})
                changed = True
    return changed


# ------------------------------------------------------------ edits

EDITS = [(10, "addcol"), (8, "dropcol"), (10, "retype"), (5, "attr"), (6, "addkey"), (6, "dropkey"), (6, "chkey"), (8, "addfk"), (6, "dropfk"), (5, "chfk"),
         (3, "renamefk"), (5, "movefk"), (4, "addtable"), (5, "droptable"), (4, "renametable"), (5, "pk"), (6, "retypelinked"), (3, "swapkeys"), (2, "dupfk"), (2, "movecol"), (2, "swapfknames"), (3, "twokeys")]


def edit(g, s, opt=None):
    """one random change"""
    opt = opt or {}
    what = g.weighted(EDITS)
    T = s["tables"]
    if not T:
        what = "addtable"
    t = g.pick(T) if T else None
    if what == "addcol":
        free = [n for n in COL_NAMES if not col(t, n)]
        if free:
            t["cols"].insert(g.int(0, len(t["cols"])), gen_type(g, g.pick(free), opt.get("odd", True)))
    elif what == "dropcol":
        if len(t["cols"]) > 1:
            t["cols"].remove(g.pick(t["cols"]))
    elif what == "retype":
        i = g.int(0, len(t["cols"]) - 1)
        n = t["cols"][i]["name"]
        t["cols"][i] = gen_type(g, n, opt.get("odd", True), cs=n.startswith("cs_"))
    elif what == "attr":
        c = g.pick(t["cols"])
        w = g.int(0, 3)
        texts = [x for x in t["cols"] if x["name"].startswith("cs_") and x["type"] in ("varchar", "char", "enum") and (x["default"] or "").isascii()]
        if texts and g.chance(50):
            c = g.pick(texts)
            c["cs"], c["coll"] = g.pick(CHARSETS)
        elif w == 0:
            c["null"] = not c["null"]
        elif w == 1:
            n = gen_type(g, c["name"], opt.get("odd", True), cs=c["name"].startswith("cs_"))
            if n["type"] == c["type"] and n["enum"] == c["enum"] and n["len"] == c["len"]:
                c["default"] = n["default"] if not (c["unsigned"] and (n["default"] or "").startswith("-")) else "0"
            else:
                c["default"] = None
        elif w == 2:
            if c["type"] in INTS + ["decimal"]:
                c["unsigned"] = not c["unsigned"]
                if (c["default"] or "").startswith("-"):
                    c["default"] = "0"
        else:
            if c["type"] in INTS:
                c["ai"] = not c["ai"]
    elif what == "addkey":
        add_key(g, t)
    elif what == "dropkey":
        if t["keys"]:
            t["keys"].remove(g.pick(t["keys"]))
    elif what == "chkey":
        if t["keys"]:
            k = g.pick(t["keys"])
            ks = [c["name"] for c in t["cols"] if c["type"] not in NOKEY]
            if g.chance(50) and ks:
                k["cols"] = g.some(ks, 1, 3)
            elif k["kind"] != "PRIMARY":
                k["kind"] = "UNIQUE" if k["kind"] == "INDEX" else "INDEX"
            else:
                k["cols"] = list(reversed(k["cols"]))
    elif what == "addfk":
        add_fk(g, s)
    elif what in ("dropfk", "chfk", "renamefk", "movefk", "dupfk", "swapfknames"):
        fl = [(x, f) for x in T for f in x["fks"]]
        if fl:
            x, f = g.pick(fl)
            if what == "dropfk":
                x["fks"].remove(f)
            elif what == "chfk":
                f["del"], f["upd"] = g.pick(ACTIONS), g.pick(ACTIONS)
            elif what == "renamefk":
                f["name"] = g.pick(FK_NAMES)
            elif what == "dupfk":
                x["fks"].append(dict(f, name=g.pick(FK_NAMES)))
            elif what == "swapfknames":
                y, h = g.pick(fl)
                f["name"], h["name"] = h["name"], f["name"]
            else:
                x["fks"].remove(f)
                n0 = sum(len(y["fks"]) for y in T)
                add_fk(g, s)
                if sum(len(y["fks"]) for y in T) > n0:
                    for y in T:
                        if y["fks"]:
                            last = y["fks"][-1]
                    last["name"] = f["name"]
    elif what == "addtable":
        free = [n for n in TABLE_NAMES if not tbl(s, n)]
        if free:
            T.insert(g.int(0, len(T)), gen_table(g, g.pick(free), opt))
    elif what == "droptable":
        T.remove(t)
    elif what == "renametable":
        free = [n for n in TABLE_NAMES if not tbl(s, n)]
        if free:
            old, new = t["name"], g.pick(free)
            t["name"] = new
            t["rows"] = None
            for x in T:
                for f in x["fks"]:
                    if f["rtable"] == old:
                        f["rtable"] = new
    elif what == "pk":
        t["keys"] = [k for k in t["keys"] if k["kind"] != "PRIMARY"]
        ks = [c["name"] for c in t["cols"] if c["type"] not in NOKEY]
        if ks and g.chance(75):
            t["keys"].insert(0, {"kind": "PRIMARY", "name": None, "cols": g.some(ks, 1, 2)})
    elif what == "retypelinked":
        fl = [f for x in T for f in x["fks"]]
        if fl:
            f = g.pick(fl)
            p = tbl(s, f["rtable"])
            c = (p and col(p, f["rcol"])) or mkcol("x", "int")
            n = g.pick(["int", "bigint", "varchar", "unsigned", "smallint"])
            if n == "unsigned" and c["type"] in INTS:
                c["unsigned"] = not c["unsigned"]
            elif n == "varchar" and not c["ai"]:
                c.update(type="varchar", len=g.pick(["20", "64"]), unsigned=False, default=None, enum=None)
            elif n != "unsigned" and n != "varchar":
                c.update(type=n, len=g.pick([None, "10"]), unsigned=g.chance(50), default=None, enum=None, cs=None, coll=None)
    elif what == "twokeys":
        # other indexes instead of the one a foreign key uses
        fl = [(x, f) for x in T for f in x["fks"]]
        if fl:
            x, f = g.pick(fl)
            kind = "INDEX"
            for k in list(x["keys"]):
                if k["cols"] == [f["col"]] and k["kind"] != "PRIMARY":
                    kind = k["kind"]
                    x["keys"].remove(k)
            for n in g.some([f["col"], "k1", "k2", f["col"] + "_k", f["name"]], 1, 3):
                x["keys"].append({"kind": kind, "name": n, "cols": [f["col"]]})
    elif what == "swapkeys":
        ks = [k for k in t["keys"] if k["kind"] != "PRIMARY"]
        if len(ks) >= 2:
            a, b = g.some(ks, 2, 2)
            a["name"], b["name"] = b["name"], a["name"]
    elif what == "movecol":
        c = g.pick(t["cols"])
        t["cols"].remove(c)
        t["cols"].insert(g.int(0, len(t["cols"])), c)


def edited(g, s, lo=0, hi=4, opt=None):
    s = copy.deepcopy(s)
    for _ in range(g.int(lo, hi)):
        edit(g, s, opt)
        if g.chance(50):
            repair(s)
    return repair(s)


COLLATIONS = ["utf8mb4_bin", "utf8mb4_unicode_ci", "utf8mb4_general_ci"]
NARROW = ["latin1", "ascii"]


def narrow(c):
    """whether the column holds ASCII texts only, here"""
    return c["cs"] in NARROW or (c["coll"] or "").startswith("latin1")


def collate(g, *schemas, by="coll"):
    """every text column that can be linked names its collation or character set (on both sides, so that all differences count)"""
    for s in schemas:
        for t in s["tables"]:
            for c in t["cols"]:
                if c["type"] in ("varchar", "char") and not c[by] and not c["name"].startswith("cs_"):
                    c["cs"], c["coll"] = (None, COLLATIONS[0]) if by == "coll" else (NARROW[0], None)


def recollate(g, s, by="coll"):
    """other collations for some columns, linked ones first; whatever is linked to them follows"""
    text = [c for t in s["tables"] for c in t["cols"] if c["type"] in ("varchar", "char") and not c["name"].startswith("cs_")]
    linked = [c for t in s["tables"] for f in t["fks"] for c in [tbl(s, f["rtable"]) and col(tbl(s, f["rtable"]), f["rcol"])] if c in text]
    for c in (g.some(linked or text, 1, 2) if text else []):
        c[by] = g.pick(COLLATIONS if by == "coll" else NARROW)
    return repair(s)


def gen_pair(g, opt=None):
    """(live, declared): unrelated, empty, or some edits apart"""
    a, b = gen_pair_plain(g, opt)
    if g.chance(12):
        b = copy.deepcopy(b)
        by = g.pick(["coll", "coll", "cs"])
        collate(g, a, b, by=by)
        if g.chance(70):
            recollate(g, b, by)
            collate(g, b, by=by)
    if g.chance(9):
        a, b = other_index(g, a, b)
    if g.chance(5):
        a, b = other_order(g, a, b)
    if g.chance(6):
        a, b = other_target(g, a, b)
    if g.chance(6):
        a, b = other_charset(g, a, b)
    if g.chance(8):
        a, b = other_default(g, a, b)
    return a, b


DEFAULTS = {
    "int": (["int", "bigint", "smallint", "tinyint", "mediumint"], None, ["0", "1", "-1", "42"]), "decimal": (["decimal"], "10,2", ["0.00", "1.50", "12.00", "-1.00"]),
    "float": (["float", "double"], None, ["0", "0.5", "2.25", "-1.5"]), "text": (["varchar", "char", "varbinary"], "20", ["", "x", "y", "0", "00", "X", "1.0"]), "byte": (["binary"], "1", ["x", "y", "0", "X"]),
    "date": (["date"], None, ["2020-01-31", "2020-02-01"]), "datetime": (["datetime", "timestamp"], None, ["CURRENT_TIMESTAMP", "2020-01-31 10:11:12", "2020-01-31 10:11:13"]),
    "time": (["time"], None, ["10:11:12", "00:00:00"]), "year": (["year"], None, ["2020", "2021"]), "enum": (["enum", "set"], None, ["a", "b"]),
}


def other_default(g, a, b):
    """a column of both sides with any two of the defaults its type can have"""
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    both = [(t, tbl(b, t["name"])) for t in a["tables"] if tbl(b, t["name"])]
    if both:
        types, ln, values = DEFAULTS[g.pick(list(DEFAULTS))]
        ty, null = g.pick(types), g.chance(60)
        for x in g.pick(both):
            if not col(x, "d_a"):
                d = g.pick(values + [None])
                x["cols"].append(mkcol("d_a", ty, ln, null=null, default=d, enum=["a", "b"] if ty in ("enum", "set") else None))
    return a, b


def other_index(g, a, b):
    """a foreign key of both sides has an index with its name on one side, and on the other side one with another name, kind or more columns"""
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    fl = [(t, tbl(b, t["name"]), f["name"]) for t in a["tables"] for f in t["fks"] if tbl(b, t["name"])]
    fl = [(t, u, [f for f in t["fks"] if f["name"] == n][0], [f for f in u["fks"] if f["name"] == n][0]) for t, u, n in fl if n in [f["name"] for f in u["fks"]]]
    if not fl:
        return a, b
    t, u, f, h = g.pick(fl)
    for x, y in ((t, f), (u, h)):
        x["keys"] = [k for k in x["keys"] if k["kind"] == "PRIMARY" or k["name"] not in (f["name"], "other_k")]
    t["keys"].append({"kind": "INDEX", "name": f["name"], "cols": [f["col"]]})
    more = [c["name"] for c in u["cols"] if c["type"] not in NOKEY and c["name"] != h["col"]]
    what = g.pick(["wider", "unique", "name", "two", "two keys"])
    u["keys"].append({"kind": "UNIQUE" if what == "unique" else "INDEX", "name": "other_k", "cols": [h["col"]] + (g.some(more, 1, 1) if what == "wider" and more else [])})
    if what == "two":
        # there are two which could stand for it
        u["keys"].append({"kind": "INDEX", "name": "other_l", "cols": [h["col"]]})
    if what == "two keys" and f["col"] == h["col"]:
        # it could stand for two, each with the name of a foreign key
        for x, y in ((t, f), (u, h)):
            x["fks"].append({**y, "name": y["name"][:50] + "_too"})
        t["keys"].append({"kind": "INDEX", "name": f["name"][:50] + "_too", "cols": [f["col"]]})
    if g.chance(30):
        a, b = b, a
    return repair(a), repair(b)


def other_order(g, a, b):
    """an index of both sides with the same columns in any order, or one more or less"""
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    both = [(t, tbl(b, t["name"])) for t in a["tables"] if tbl(b, t["name"])]
    if both:
        t, u = g.pick(both)
        fit = [c["name"] for c in t["cols"] if c["type"] not in NOKEY and col(u, c["name"]) and col(u, c["name"])["type"] not in NOKEY]
        kind = g.pick(["INDEX", "UNIQUE"])
        cols = g.some(fit, min(2, len(fit)), 4) if fit else []
        for x in (t, u):
            x["keys"] = [k for k in x["keys"] if k["name"] != "order_k"]
            mine = g.some(cols, max(1, len(cols) - g.pick([0, 0, 0, 1])), len(cols)) if cols else []
            if mine:
                x["keys"].append({"kind": kind, "name": "order_k", "cols": mine})
    return repair(a), repair(b)


def other_target(g, a, b):
    """a table on one side only has a foreign key to a column, or an index, which is on that side only"""
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    both = [(t, tbl(b, t["name"])) for t in a["tables"] if tbl(b, t["name"])]
    if not both:
        return a, b
    t, u = g.pick(both)
    ty = g.pick(["int", "bigint", "date"])
    new = {"name": g.pick(["aa_new", "zz_new"]), "cols": [mkcol("id", "int", null=False), mkcol("tgt", ty)], "keys": [{"kind": "PRIMARY", "name": None, "cols": ["id"]}, {"kind": "INDEX", "name": "tgt", "cols": ["tgt"]}], "fks": [], "opts": [], "rows": None}
    if any(x["name"].lower() == new["name"] for s in (a, b) for x in s["tables"]) or any(col(x, "tgt_a") for x in (t, u)) or not u["name"].isascii():
        return a, b
    new["fks"].append({"name": "tgt_fk", "col": "tgt", "rtable": u["name"], "rcol": "tgt_a", "del": g.pick(ACTIONS), "upd": g.pick(ACTIONS)})
    u["cols"].append(mkcol("tgt_a", ty))
    u["keys"].append({"kind": g.pick(["INDEX", "UNIQUE"]), "name": "tgt_k", "cols": ["tgt_a"]})
    if g.chance(60):
        t["cols"].append(mkcol("tgt_a", ty if g.chance(70) else "smallint"))
    b["tables"].append(new)
    if g.chance(30):
        a, b = b, a
    return repair(a), repair(b)


def other_charset(g, a, b):
    """a text column of both sides with any two of the ways to name a character set"""
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    both = [(t, tbl(b, t["name"])) for t in a["tables"] if tbl(b, t["name"])]
    if both:
        t, u = g.pick(both)
        c = gen_type(g, "cs_a", cs=True)
        while c["type"] not in ("varchar", "char", "enum"):
            c = mkcol("cs_a", g.pick(["varchar", "char"]), "40")
        for x in (t, u):
            if not col(x, "cs_a"):
                x["cols"].append(dict(c))
            y = col(x, "cs_a")
            if y["type"] in ("varchar", "char", "enum") and (y["default"] or "").isascii() and "".join(y["enum"] or ()).isascii():
                y["cs"], y["coll"] = g.pick(CHARSETS + [("utf8", None), ("utf8", "utf8_bin")])
    return a, b


def gen_pair_plain(g, opt=None):
    """(live, declared): unrelated, empty, or some edits apart"""
    opt = opt or {}
    a = gen_schema(g, opt)
    n = g.int(0, 19)
    if n == 0:
        return a, {"tables": []}
    if n == 1:
        return {"tables": []}, a
    if n in (2, 3):
        return a, gen_schema(g, opt)
    b = edited(g, a, 1, opt.get("maxedits", 4), opt)
    if g.chance(20):
        g_shuffle(g, b["tables"])
    if g.chance(30):
        return b, a
    return a, b


def g_shuffle(g, seq):
    for i in range(len(seq) - 1, 0, -1):
        j = i - g.int(0, i)
        seq[i], seq[j] = seq[j], seq[i]


# ------------------------------------------------------------ rows

ROWTYPES = set(INTS) | {"varchar", "char", "decimal", "float", "double", "date", "datetime", "timestamp", "year", "enum", "text", "mediumtext", "longtext"}
UNIQTYPES = set(INTS) | {"varchar", "char"}
PLAIN_TEXTS = ["a", "bc", "x y", "0", "12", "n/a", "Some Name", "e", "1.50", "2020-01-31"]
ODD_TEXTS = ["it's", "a;b", "--x", "# no", "/* c */", "(1,2)", "NULL", "back\\slash", 'say "hi"', "caf\u00e9", "100%", "a,b", "`tick`", "None", "'", "x\\'; y", ""]


def trackable(t):
    """rows of this table can be declared: it has an id, and the primary key (if any) contains it"""
    c = col(t, "id")
    pk = next((k for k in t["keys"] if k["kind"] == "PRIMARY"), None)
    return bool(c and (c["type"] in INTS or (c["type"] == "varchar" and not c["cs"])) and (pk is None or "id" in pk["cols"]) and (pk or not any(k["kind"] == "UNIQUE" and "id" in k["cols"] for k in t["keys"])))


def fit_rows(t):
    """make a table that is to hold rows able to: nothing required that rows here can't give"""
    for c in t["cols"]:
        if c["type"] not in ROWTYPES and not any(k["kind"] == "PRIMARY" and c["name"] in k["cols"] for k in t["keys"]):
            c["null"] = True
    for k in t["keys"]:
        if k["kind"] == "UNIQUE" and any(col(t, n)["type"] not in UNIQTYPES or n == "id" for n in k["cols"]):
            k["kind"] = "INDEX"
        if k["kind"] == "PRIMARY":
            k["cols"] = [n for n in k["cols"] if n == "id" or col(t, n)["type"] in ROWTYPES] or k["cols"]


def unique_cols(*tables):
    return set(n for t in tables if t for k in t["keys"] if k["kind"] != "INDEX" for n in k["cols"])


def gen_value(g, c, n, uniq, odd):
    """the text of a value that the server gives back as exactly this text"""
    ty = c["type"]
    if uniq:
        k = g.int(0, 1)
        return str(2 * n + k) if ty in INTS else "u%d%s" % (n, "b" * k)
    if c["null"] and g.chance(15):
        return None
    if ty in INTS:
        return g.pick(["0", "1", "7", "100"] + ([] if c["unsigned"] else ["-1"]))
    if ty == "decimal":
        return norm_decimal(g.pick(["0", "1.5", "12", "3.14"]), c["len"])
    if ty in ("float", "double"):
        return g.pick(["0.5", "2.25", "7.5"])
    if ty == "date":
        return g.pick(["2020-01-31", "1999-12-01"])
    if ty in ("datetime", "timestamp"):
        return g.pick(["2020-01-31 10:11:12", "2001-02-03 00:00:00"])
    if ty == "year":
        return g.pick(["2020", "1999"])
    if ty == "enum":
        return g.pick(c["enum"])
    v = g.pick(PLAIN_TEXTS + (ODD_TEXTS if odd else []))
    if narrow(c):
        v = v.replace("\u00e9", "e")
    return v.rstrip(" ") if ty == "char" else v


ODD_IDS = ["a", "it's", "x;y", "back\\s", "caf\u00e9", "1 2", "%"]


def gen_ids(g, tables, lo, hi):
    ids = [str(i) for i in range(1, 10)]
    if not any(col(t, "id")["ai"] for t in tables if t):
        ids += ["0"]  # an AUTO_INCREMENT column counts on when 0 is inserted
    if all(col(t, "id")["type"] == "varchar" for t in tables if t):
        ids += ODD_IDS
        seen = {i.lower() for i in ids}
        for t in tables:
            # an id may read like the name of a column
            for c in t["cols"] if t else []:
                if len(c["name"]) <= 20 and c["name"].isascii() and c["name"].lower() not in seen:
                    seen.add(c["name"].lower())
                    ids.append(c["name"])
    return g.some(ids, lo, hi)


def gen_row(g, t, rid, n, uniq, odd, must=True):
    r = {"id": rid}
    for c in t["cols"]:
        if c["name"] == "id" or c["type"] not in ROWTYPES:
            continue
        u = c["name"] in uniq and c["type"] in UNIQTYPES
        required = not c["null"] and c["default"] is None and not c["ai"]
        if u or (required and must) or g.chance(75):
            r[c["name"]] = gen_value(g, c, n, u, odd)
    items = list(r.items())
    if g.chance(20):
        g_shuffle(g, items)
    return dict(items)


def fill(g, t, ids, uniq, odd, have=()):
    """rows for these ids; often all with the same columns"""
    out = []
    for rid in ids:
        n = int(rid) if re.fullmatch(r"[0-9]+", rid) else 20 + (ODD_IDS.index(rid) if rid in ODD_IDS else len(ODD_IDS) + (len(rid) * 31 + sum(map(ord, rid))) % 30)
        out.append(gen_row(g, t, rid, n, uniq, odd, must=not (rid in have and g.chance(30))))
    return out


def gen_row_pair(g, a, b, odd=True):
    """put rows into a live schema and declare rows in the other"""
    for c in [c for s in (a, b) for t in s["tables"] for c in t["cols"] if c["type"] in ("binary", "varbinary")]:
        c["default"] = None  # a row would have the bytes of it
    for t in a["tables"]:
        w = tbl(b, t["name"])
        if not trackable(t) or not g.chance(70):
            continue
        if w is not None and not (trackable(w) or not col(w, "id")):
            continue
        fit_rows(t)
    repair(a)
    for t in a["tables"]:
        t["rows"] = None
    for w in b["tables"]:
        w["rows"] = None
        t = tbl(a, w["name"])
        if trackable(w) and (t is None or trackable(t)) and g.chance(60):
            w["rows"] = []
            fit_rows(w)
            if t:
                fit_rows(t)
                keep_unique(t, w)
    repair(a), repair(b)
    for t in a["tables"]:
        w = tbl(b, t["name"])
        if not trackable(t) or unfit(t):
            continue
        if w is not None and w["rows"] is None and any(k["kind"] != "INDEX" and not same_key(t, w, k) for k in w["keys"]):
            continue
        if w is not None and w["rows"] is not None and (unfit(w) or not trackable(w)):
            w["rows"] = None
            continue
        ids = gen_ids(g, [t, w if w and col(w, "id") else None], 0, 4)
        if g.chance(80):
            t["rows"] = [dict(r) for r in fill(g, t, ids, unique_cols(t, w), odd)]
    for w in b["tables"]:
        if w["rows"] is None:
            continue
        t = tbl(a, w["name"])
        if not trackable(w) or unfit(w) or (t and (not trackable(t) or unfit(t))):
            w["rows"] = None
            continue
        live = {r["id"]: r for r in (t["rows"] or [])} if t else {}
        uniq = unique_cols(t, w)
        ids = gen_ids(g, [t, w], 0, 3) + [i for i in live if g.chance(60)]
        ids = list(dict.fromkeys(ids))
        w["rows"] = []
        for r in fill(g, w, ids, uniq, odd, live):
            old = live.get(r["id"])
            if old and g.chance(60):
                # much is as it was
                for n in r:
                    if n in old and t and col_tuple(col(t, n)) == col_tuple(col(w, n)) and g.chance(85) and not (old[n] is None and not col(w, n)["null"]):
                        r[n] = old[n]
                        if n != "id" and n not in uniq:
                            almost(g, col(t, n), old, r, n)
            w["rows"].append(r)
        w["rows"] = w["rows"] or None
    return a, b


def almost(g, c, old, new, n):
    """make the values of a column (the same on both sides) differ just slightly"""
    if c["type"] in ("varchar", "text", "mediumtext", "longtext") and new[n] is not None and g.chance(12):
        v = new[n]
        v = g.pick([v + " ", " " + v, v.swapcase(), v[:-1], v + "0", "0" + v, v + ".0", v.strip(), ""])
        if not (c["len"] and len(v) > int(c["len"])) and not v.endswith("\\") and not (narrow(c) and not v.isascii()):
            new[n] = v
    if c["null"] and c["type"] != "timestamp" and g.chance(10):
        # the default is declared, and nothing (or nothing much) is there
        d = c["default"]
        if isinstance(d, str) and c["type"] in ("varchar", "enum") and (c["type"] != "enum" or d in c["enum"]) and not d.endswith("\\") or isinstance(d, str) and c["type"] in INTS and d.isdigit():
            new[n] = d
        else:
            new[n] = None if new[n] is not None and g.chance(50) else new[n]
        old[n] = None if new[n] is not None or c["type"] not in ("varchar", "text") else ""


def unfit(t):
    return any((c["type"] not in ROWTYPES and not c["null"]) for c in t["cols"]) or any(k["kind"] == "UNIQUE" and any(col(t, n)["type"] not in UNIQTYPES or n == "id" for n in k["cols"]) for k in t["keys"]) or any(k["kind"] == "PRIMARY" and "id" not in k["cols"] for k in t["keys"])


def same_key(t, w, k):
    """this key of w is on t too, on columns that are the same"""
    for x in t["keys"]:
        if x["kind"] == k["kind"] and x["cols"] == k["cols"]:
            return all(col(t, n) and col_tuple(col(t, n)) == col_tuple(col(w, n)) for n in k["cols"])
    return k["kind"] == "PRIMARY" and "id" in k["cols"] and bool(col(t, "id")) and trackable(t)


def keep_unique(t, w):
    """no new demands of uniqueness on rows that are there already"""
    for k in w["keys"]:
        if k["kind"] == "UNIQUE" and not same_key(t, w, k):
            k["kind"] = "INDEX"


# ------------------------------------------------------------ to the simulator

def sim_default(c):
    d = c["default"]
    if d is None:
        return None
    if d == "CURRENT_TIMESTAMP" and c["type"] in ("datetime", "timestamp"):
        return ("now",)
    return ("lit", d)


def sim_col(c):
    x = sim.Col(c["name"], c["type"], c["len"], c["unsigned"], c["null"], sim_default(c), c["ai"], list(c["enum"]) if c["enum"] else None, c["cs"], c["coll"])
    return x


def sim_table(t):
    x = sim.Table(t["name"])
    x.cols = [sim_col(c) for c in t["cols"]]
    x.keys = [sim.Key(k["kind"], "PRIMARY" if k["kind"] == "PRIMARY" else k["name"], k["cols"]) for k in t["keys"]]
    x.fks = [sim.FK(f["name"], f["col"], f["rtable"], f["rcol"], f["del"], f["upd"]) for f in t["fks"]]
    return x


def server(s, style="8.0"):
    """a server holding this schema (checked against the server's own rules), with its rows"""
    try:
        return _server(s, style)
    except sim.SqlError as e:
        if os.environ.get("VERIF_STRICT"):
            raise
        raise boot.Skip("a server can't be in this state: %s" % e)


def _server(s, style):
    sv = sim.Server(style)
    sv.fk_checks = False
    for t in s["tables"]:
        sv.do_create(sim_table(t))
    for t in s["tables"]:
        st_ = sv.tables[t["name"]]
        for r in t.get("rows") or []:
            sv.do_insert(t["name"], list(r), [[("null",) if v is None else ("str", v) for v in r.values()]])
    sv.commit()
    sv.fk_checks = True
    return sv


# ------------------------------------------------------------ canonical forms

def norm_default(c):
    """comparable default of a model or canonical column dict"""
    d = c["default"]
    if d is None or c["type"] in TEXTS:
        return None
    if c["type"] in INTS or c["type"] == "year":
        return str(int(decimal.Decimal(d)))
    if c["type"] == "decimal":
        return norm_decimal(d, c["len"] if "," in (c["len"] or "") else (c["len"] or "10") + ",0")
    if c["type"] in ("float", "double"):
        return str(float(d))
    if c["type"] in ("datetime", "timestamp") and d.upper() == "CURRENT_TIMESTAMP":
        return "CURRENT_TIMESTAMP"
    return d


def canon_sim_col(c):
    d = c.default
    return dict(name=c.name, type=c.type, len=c.len, unsigned=c.uns, null=c.null, default=None if d is None else ("CURRENT_TIMESTAMP" if d == ("now",) else d[1]), ai=c.ai, enum=c.enum, cs=c.cs, coll=c.coll)


def col_tuple(c):
    """what counts as the definition of a column (integer display width and character sets do not)"""
    ln = c["len"]
    if c["type"] in INTS or c["type"] in TEXTS + DATES + ["float", "double", "enum", "set"]:
        ln = None
    if c["type"] == "decimal":
        ln = ln or "10,0"
        ln += "" if "," in ln else ",0"
    if c["type"] in ("char", "binary"):
        ln = ln or "1"
    return (c["type"], ln, bool(c["unsigned"]), bool(c["null"]), norm_default(c), bool(c["ai"]), tuple(c["enum"] or ()))


def act(a):
    return "RESTRICT" if a in ("NO ACTION", "", None) else a


def fk_tuple(f):
    return (f["col"], f["rtable"], f["rcol"], act(f["del"]), act(f["upd"]))


def keyset(keys):
    """name -> (kind, cols) ; the primary key is PRIMARY"""
    return {("PRIMARY" if k["kind"] == "PRIMARY" else k["name"]): (k["kind"], tuple(k["cols"])) for k in keys}


def sim_as_model(t):
    """a sim table in model form"""
    return {"name": t.name, "cols": [canon_sim_col(c) for c in t.cols],
            "keys": [{"kind": k.kind, "name": None if k.kind == "PRIMARY" else k.name, "cols": list(k.cols)} for k in t.keys],
            "fks": [{"name": f.name, "col": f.col, "rtable": f.rtable, "rcol": f.rcol, "del": f.dele, "upd": f.upd} for f in t.fks],
            "opts": [], "rows": None}


def server_as_model(sv):
    out = {"tables": [sim_as_model(t) for t in sv.tables.values()]}
    for t, m in zip(sv.tables.values(), out["tables"]):
        for c, x in zip(t.cols, m["cols"]):
            # what SHOW CREATE TABLE leaves out, as the table has the same
            x["hidden"] = [a for a, v in zip(("cs", "coll"), printed_cs(sv, t, c)) if v is None]
    return out


def printed_cs(sv, t, c):
    """character set and collation of a column as the server prints them"""
    toks = re.sub(r"`(?:[^`]|``)*`|'(?:[^'\\]|''|\\.)*'", "''", sv.show_col(t, c), flags=re.S).split(" ")
    return toks[toks.index("SET") + 1] if "CHARACTER" in toks else None, toks[toks.index("COLLATE") + 1] if "COLLATE" in toks else None


def match_keys(have, want, fknames):
    """None, or what differs; an index named after a foreign key may stand for one of the same kind and columns"""
    h, w = keyset(have), keyset(want)
    missing = [(n, w[n]) for n in w if h.get(n) != w[n]]
    extra = [(n, h[n]) for n in h if w.get(n) != h[n]]
    for n, v in list(missing):
        for m, u in list(extra):
            if u == v and v[0] != "PRIMARY" and (n in fknames or m in fknames) and n not in h and m not in w:
                missing.remove((n, v))
                extra.remove((m, u))
                break
    if missing or extra:
        return "missing %r, extra %r" % (missing, extra)
    return None


def compare(have, want, old=None, was=None):
    """list of differences between the structure that is there and the declared one

    was: the structure before the plan: character sets which it had by then and which the server doesn't print don't
    count (see the findings)"""
    out = []
    hn, wn = {t["name"]: t for t in have["tables"]}, {t["name"]: t for t in want["tables"]}
    for n in hn:
        if n not in wn:
            out.append("table %s should not be there" % n)
    for n, w in wn.items():
        h = hn.get(n)
        if h is None:
            out.append("table %s is missing" % n)
            continue
        hc, wc = {c["name"]: c for c in h["cols"]}, {c["name"]: c for c in w["cols"]}
        for c in hc:
            if c not in wc:
                out.append("column %s.%s should not be there" % (n, c))
        for c in wc:
            if c not in hc:
                out.append("column %s.%s is missing" % (n, c))
            elif col_tuple(hc[c]) != col_tuple(wc[c]):
                out.append("column %s.%s is %r, declared %r" % (n, c, col_tuple(hc[c]), col_tuple(wc[c])))
            else:
                for a in ("cs", "coll"):
                    if hc[c][a] and wc[c][a] and hc[c][a].lower() != wc[c][a].lower():
                        before = was and tbl(was, n) and col(tbl(was, n), c)
                        if before and a in hc[c].get("hidden", ()) and (before["cs"], before["coll"]) == (hc[c]["cs"], hc[c]["coll"]):
                            continue
                        out.append("column %s.%s has %s %s, declared %s" % (n, c, a, hc[c][a], wc[c][a]))
        oldt = tbl(old, n) if old else None
        if old is not None:
            oc = set(c["name"] for c in oldt["cols"]) if oldt else set()
            order = [c["name"] for c in h["cols"]]
            decl = [c["name"] for c in w["cols"]]
            if oldt is None and order != decl:
                out.append("columns of new table %s are %r, declared %r" % (n, order, decl))
            for i, c in enumerate(decl):
                if c in oc or c not in order:
                    continue
                if (i == 0 and order[0] != c) or (i > 0 and (order.index(c) == 0 or order[order.index(c) - 1] != decl[i - 1])):
                    out.append("new column %s.%s is not after %s: %r" % (n, c, decl[i - 1] if i else "the start", order))
                for a in ("cs", "coll"):
                    if wc[c][a] and (hc[c][a] or "").lower() != wc[c][a].lower():
                        out.append("new column %s.%s has %s %s, declared %s" % (n, c, a, hc[c][a], wc[c][a]))
        fkn = set(f["name"] for f in w["fks"])
        d = match_keys(h["keys"], w["keys"], fkn)
        if d:
            out.append("indexes of %s: %s" % (n, d))
        hf, wf = {f["name"]: fk_tuple(f) for f in h["fks"]}, {f["name"]: fk_tuple(f) for f in w["fks"]}
        if hf != wf:
            out.append("foreign keys of %s are %r, declared %r" % (n, hf, wf))
    return out
