"""A small MySQL server: parses and executes the statements a migration needs,
with MySQL 8 semantics for ALTER TABLE, keys, foreign keys (checks on or off),
typed row storage, transactions and SHOW CREATE TABLE in 5.7 and 8.0 style.

Written from the MySQL reference manual, independent of the code under test.
Unsupported syntax is a syntax error, as it would be on a server."""
import copy
import datetime
import decimal
from sqllex import lex, SqlError, RESERVED

INTS = {"tinyint": (-128, 127), "smallint": (-32768, 32767), "mediumint": (-8388608, 8388607), "int": (-2147483648, 2147483647), "bigint": (-(1 << 63), (1 << 63) - 1)}
UINTS = {"tinyint": 255, "smallint": 65535, "mediumint": 16777215, "int": 4294967295, "bigint": (1 << 64) - 1}
W57 = {"tinyint": (4, 3), "smallint": (6, 5), "mediumint": (9, 8), "int": (11, 10), "bigint": (20, 20)}
FLOATS = {"float", "double"}
NUM = set(INTS) | FLOATS | {"decimal"}
DATES = {"date", "datetime", "timestamp", "time", "year"}
TEXTS = {"tinytext", "text", "mediumtext", "longtext"}
BLOBS = {"tinyblob", "blob", "mediumblob", "longblob"}
CHARS = {"char", "varchar"}
BINS = {"binary", "varbinary"}
ALLTYPES = NUM | DATES | TEXTS | BLOBS | CHARS | BINS | {"enum", "set", "json", "bit"}
SYN = {"integer": "int", "dec": "decimal", "numeric": "decimal", "real": "double", "int4": "int", "int8": "bigint"}
DEFCOLL = {"utf8mb4": {"8.0": "utf8mb4_0900_ai_ci", "5.7": "utf8mb4_general_ci"}, "utf8": {"8.0": "utf8_general_ci", "5.7": "utf8_general_ci"}, "latin1": {"8.0": "latin1_swedish_ci", "5.7": "latin1_swedish_ci"}, "ascii": {"8.0": "ascii_general_ci", "5.7": "ascii_general_ci"}}


def coll_charset(coll):
    return coll.split("_")[0]


class Col:
    __slots__ = ("name", "type", "len", "uns", "null", "default", "ai", "enum", "cs", "coll", "pk", "uq", "nullset")

    def __init__(self, name, type, len=None, uns=False, null=True, default=None, ai=False, enum=None, cs=None, coll=None):
        self.name, self.type, self.len, self.uns, self.null = name, type, len, uns, null
        self.default, self.ai, self.enum, self.cs, self.coll = default, ai, enum, cs, coll
        self.pk = self.uq = False
        self.nullset = False

    def copy(self):
        return copy.copy(self)

    def deftuple(self):
        return (self.type, self.len if self.type not in INTS else None, self.uns, self.null, self.default, self.ai, tuple(self.enum or ()), self.cs, self.coll)


class Key:
    __slots__ = ("kind", "name", "cols")

    def __init__(self, kind, name, cols):
        self.kind, self.name, self.cols = kind, name, list(cols)

    def copy(self):
        return Key(self.kind, self.name, self.cols)


class FK:
    __slots__ = ("name", "col", "rtable", "rcol", "dele", "upd")

    def __init__(self, name, col, rtable, rcol, dele, upd):
        self.name, self.col, self.rtable, self.rcol, self.dele, self.upd = name, col, rtable, rcol, dele, upd

    def copy(self):
        return FK(self.name, self.col, self.rtable, self.rcol, self.dele, self.upd)

    def tup(self):
        return (self.name, self.col, self.rtable, self.rcol, self.dele, self.upd)


class Table:
    def __init__(self, name):
        self.name = name
        self.cols, self.keys, self.fks, self.rows = [], [], [], []
        self.opts = {}
        self.next_ai = 1

    def clone(self):
        t = Table(self.name)
        t.cols = [c.copy() for c in self.cols]
        t.keys = [k.copy() for k in self.keys]
        t.fks = [f.copy() for f in self.fks]
        t.rows = list(self.rows)
        t.opts = dict(self.opts)
        t.next_ai = self.next_ai
        return t

    def col(self, name):
        for c in self.cols:
            if c.name.lower() == name.lower():
                return c
        return None

    def key(self, name):
        for k in self.keys:
            if k.name.lower() == name.lower():
                return k
        return None

    def primary(self):
        return next((k for k in self.keys if k.kind == "PRIMARY"), None)


class P:
    """statement parser: returns (verb, payload)"""

    def __init__(self, sql):
        self.sql = sql
        self.t = lex(sql)
        self.i = 0

    def err(self):
        near = self.sql[self.t[self.i].s:self.t[self.i].s + 40] if self.i < len(self.t) else ""
        raise SqlError(1064, "You have an error in your SQL syntax near '%s'" % near)

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def kw(self, *words):
        """consume these words if they are next"""
        for n, w in enumerate(words):
            t = self.peek(n)
            if t is None or t.k not in ("id", "op") or t.v.lower() != w.lower():
                return False
        self.i += len(words)
        return True

    def need(self, *words):
        if not self.kw(*words):
            self.err()

    def ident(self):
        t = self.peek()
        if t is None or t.k not in ("id", "bq"):
            self.err()
        if t.k == "id" and t.v.lower() in RESERVED:
            self.err()
        if t.v == "" or len(t.v) > 64 or t.v.endswith(" "):
            raise SqlError(1059 if t.v else 1064, "bad identifier %r" % t.v)
        self.i += 1
        return t.v

    def name_or_text(self):
        t = self.peek()
        if t is None or t.k not in ("id", "bq", "str"):
            self.err()
        self.i += 1
        return t.v

    def number(self):
        t = self.peek()
        if t is None or t.k != "num":
            self.err()
        self.i += 1
        return t.v

    def string(self):
        t = self.peek()
        if t is None or t.k != "str":
            self.err()
        self.i += 1
        v = t.v
        while self.peek() is not None and self.peek().k == "str":
            v += self.peek().v
            self.i += 1
        return v

    def literal(self):
        """('null',) | ('str', text) | ('num', text) | ('now',)"""
        t = self.peek()
        if t is None:
            self.err()
        if t.k == "str":
            return ("str", self.string())
        if t.k == "num":
            self.i += 1
            return ("num", t.v)
        if t.k == "op" and t.v in "+-":
            self.i += 1
            return ("num", ("-" if t.v == "-" else "") + self.number())
        if self.kw("null"):
            return ("null",)
        if self.kw("true"):
            return ("num", "1")
        if self.kw("false"):
            return ("num", "0")
        if self.kw("current_timestamp") or self.kw("now") or self.kw("localtime") or self.kw("localtimestamp"):
            if self.kw("("):
                if not self.kw(")"):
                    self.number()
                    self.need(")")
            return ("now",)
        self.err()

    def collist(self):
        self.need("(")
        cols = [self.ident()]
        self._prefix()
        while self.kw(","):
            cols.append(self.ident())
            self._prefix()
        self.need(")")
        return cols

    def _prefix(self):
        if self.kw("("):
            self.number()
            self.need(")")
        self.kw("asc") or self.kw("desc")

    def column(self, name=None):
        name = self.ident() if name is None else name
        t = self.peek()
        if t is None or t.k != "id":
            self.err()
        ty = t.v.lower()
        self.i += 1
        c = Col(name, SYN.get(ty, ty))
        if ty in ("bool", "boolean"):
            c.type, c.len = "tinyint", "1"
        if c.type not in ALLTYPES:
            self.i -= 1
            self.err()
        if self.kw("("):
            if c.type in ("enum", "set"):
                c.enum = [self.string()]
                while self.kw(","):
                    c.enum.append(self.string())
            else:
                ln = self.number()
                if self.kw(","):
                    ln += "," + self.number()
                c.len = ln
            self.need(")")
        if c.type in ("enum", "set") and not c.enum:
            self.err()
        if c.type in CHARS | BINS and c.len is None:
            if c.type in ("varchar", "varbinary"):
                self.err()
            c.len = "1"
        if c.len is not None:
            if c.type in TEXTS | BLOBS | {"json", "date"}:
                if c.type in ("text", "blob"):
                    pass
                else:
                    self.err()
            if "," in c.len and c.type not in ("decimal", "float", "double"):
                self.err()
        if c.type == "decimal":
            if c.len is None:
                c.len = "10,0"
            elif "," not in c.len:
                c.len += ",0"
            a, b = c.len.split(",")
            if int(b) > int(a):
                raise SqlError(1427, "M must be >= D")
        while c.type in NUM:
            if self.kw("unsigned"):
                c.uns = True
            elif self.kw("zerofill"):
                c.uns = True
            elif self.kw("signed"):
                pass
            else:
                break
        if c.type in CHARS | TEXTS | {"enum", "set"}:
            if self.kw("character", "set") or self.kw("charset"):
                c.cs = self.name_or_text().lower()
        hasdef = False
        while True:
            if self.kw("not", "null"):
                c.null = False
                c.nullset = True
            elif self.kw("null"):
                c.null = True
                c.nullset = True
            elif self.kw("default"):
                lit = self.literal()
                hasdef = True
                c.default = None if lit[0] == "null" else (("now",) if lit[0] == "now" else ("lit", lit[1]))
                if lit[0] == "null":
                    c.default = ("null",)
            elif self.kw("auto_increment"):
                c.ai = True
            elif self.kw("primary", "key") or self.kw("primary"):
                c.pk = True
            elif self.kw("unique", "key") or self.kw("unique"):
                c.uq = True
            elif self.kw("comment"):
                self.string()
            elif self.kw("collate"):
                if c.type not in CHARS | TEXTS | {"enum", "set"}:
                    self.err()
                c.coll = self.name_or_text().lower()
            elif self.kw("on", "update"):
                if self.literal() != ("now",):
                    self.err()
            else:
                break
        if c.default == ("null",):
            if not c.null or c.pk:
                raise SqlError(1067, "Invalid default value for '%s'" % name)
            c.default = None
        return c

    def key_def(self):
        """an index definition starting here, or None"""
        if self.kw("primary", "key"):
            return Key("PRIMARY", "PRIMARY", self.collist())
        kind = None
        if self.kw("unique"):
            kind = "UNIQUE"
            self.kw("key") or self.kw("index")
        elif self.kw("key") or self.kw("index"):
            kind = "INDEX"
        if kind is None:
            return None
        nm = None
        t = self.peek()
        if t is not None and not (t.k == "op" and t.v == "("):
            nm = self.ident()
        return Key(kind, nm, self.collist())

    def fk_def(self):
        start = self.i
        nm = None
        if self.kw("constraint"):
            t = self.peek()
            if t is None:
                self.err()
            if not (t.k == "id" and t.v.lower() in ("foreign", "primary", "unique")):
                nm = self.ident()
            if not self.kw("foreign", "key"):
                k = self.key_def()
                if k is None:
                    self.err()
                if k.kind == "UNIQUE" and k.name is None:
                    k.name = nm
                return k
        elif not self.kw("foreign", "key"):
            self.i = start
            return None
        t = self.peek()
        if t is not None and not (t.k == "op" and t.v == "("):
            self.ident()
        cols = self.collist()
        self.need("references")
        rt = self.ident()
        rcols = self.collist()
        if len(cols) != 1 or len(rcols) != 1:
            raise SqlError(1235, "multi column foreign keys are not modelled")
        dele = upd = "NO ACTION"
        seen = set()
        while self.kw("on"):
            w = "delete" if self.kw("delete") else ("update" if self.kw("update") else self.err())
            if w in seen:
                self.err()
            seen.add(w)
            if self.kw("set", "null"):
                a = "SET NULL"
            elif self.kw("set", "default"):
                a = "SET DEFAULT"
            elif self.kw("no", "action"):
                a = "NO ACTION"
            elif self.kw("cascade"):
                a = "CASCADE"
            elif self.kw("restrict"):
                a = "RESTRICT"
            else:
                self.err()
            if w == "delete":
                dele = a
            else:
                upd = a
        return FK(nm, cols[0], rt, rcols[0], dele, upd)

    def table_def(self):
        self.need("create", "table")
        ine = self.kw("if", "not", "exists")
        t = Table(self.ident())
        self.need("(")
        while True:
            d = self.key_def()
            if d is None:
                d = self.fk_def()
            if isinstance(d, Key):
                t.keys.append(d)
            elif isinstance(d, FK):
                t.fks.append(d)
            else:
                t.cols.append(self.column())
            if self.kw(","):
                continue
            self.need(")")
            break
        while self.peek() is not None and not (self.peek().k == "op" and self.peek().v == ";"):
            if self.kw(","):
                continue
            self.kw("default")
            if self.kw("character", "set"):
                o = "CHARSET"
            else:
                tk = self.peek()
                if tk is None or tk.k != "id" or tk.v.upper() not in ("ENGINE", "CHARSET", "COLLATE", "AUTO_INCREMENT", "COMMENT", "ROW_FORMAT", "KEY_BLOCK_SIZE", "CHECKSUM", "STATS_PERSISTENT", "AVG_ROW_LENGTH", "MAX_ROWS", "MIN_ROWS", "PACK_KEYS", "DELAY_KEY_WRITE", "COMPRESSION"):
                    self.err()
                o = tk.v.upper()
                self.i += 1
            self.kw("=")
            tk = self.peek()
            if tk is None or tk.k not in ("id", "str", "num", "bq"):
                self.err()
            t.opts[o] = tk.v
            self.i += 1
        return ("create", t, ine)

    def statement(self):
        if not self.t:
            raise SqlError(1065, "Query was empty")
        r = self._statement()
        self.kw(";")
        if self.i < len(self.t):
            self.err()
        return r

    def _statement(self):
        if self.peek().k == "id" and self.peek().v.lower() == "create":
            return self.table_def()
        if self.kw("drop", "table"):
            ie = self.kw("if", "exists")
            names = [self.ident()]
            while self.kw(","):
                names.append(self.ident())
            return ("drop", names, ie)
        if self.kw("alter", "table"):
            tn = self.ident()
            acts = [self.action()]
            while self.kw(","):
                acts.append(self.action())
            return ("alter", tn, acts)
        if self.kw("set"):
            self.kw("session") or self.kw("@", "@")
            n = self.ident().lower()
            self.need("=")
            lit = self.literal()
            if n != "foreign_key_checks" or lit[0] != "num" or lit[1] not in "01":
                raise SqlError(1193, "Unknown system variable")
            return ("checks", lit[1] == "1")
        if self.kw("insert", "into") or self.kw("insert"):
            tn = self.ident()
            cols = None
            if self.kw("("):
                cols = [self.ident()]
                while self.kw(","):
                    cols.append(self.ident())
                self.need(")")
            if not (self.kw("values") or self.kw("value")):
                self.err()
            groups = []
            while True:
                self.need("(")
                vals = [self.val()]
                while self.kw(","):
                    vals.append(self.val())
                self.need(")")
                groups.append(vals)
                if not self.kw(","):
                    break
            return ("insert", tn, cols, groups)
        if self.kw("update"):
            tn = self.ident()
            self.need("set")
            sets = []
            while True:
                c = self.ident()
                self.need("=")
                sets.append((c, self.val()))
                if not self.kw(","):
                    break
            return ("update", tn, sets, self.where())
        if self.kw("delete", "from"):
            tn = self.ident()
            return ("delete", tn, self.where())
        if self.kw("show", "create", "table"):
            return ("showcreate", self.ident())
        if self.kw("show", "tables"):
            return ("tables",)
        if self.kw("select"):
            cols = None
            if not self.kw("*"):
                cols = [self.ident()]
                while self.kw(","):
                    cols.append(self.ident())
            self.need("from")
            tn = self.ident()
            w = self.where()
            if self.kw("order", "by"):
                self.ident()
            return ("select", cols, tn, w)
        self.err()

    def val(self):
        if self.kw("default"):
            return ("default",)
        return self.literal()

    def where(self):
        if not self.kw("where"):
            return None
        conds = []
        while True:
            c = self.ident()
            self.need("=")
            conds.append((c, self.literal()))
            if not self.kw("and"):
                return conds

    def action(self):
        if self.kw("add"):
            d = self.key_def()
            if d is None:
                d = self.fk_def()
            if isinstance(d, Key):
                return ("addkey", d)
            if isinstance(d, FK):
                return ("addfk", d)
            self.kw("column")
            c = self.column()
            return ("addcol", c, self.pos())
        if self.kw("change"):
            self.kw("column")
            old = self.ident()
            c = self.column()
            return ("change", old, c, self.pos())
        if self.kw("modify"):
            self.kw("column")
            c = self.column()
            return ("change", c.name, c, self.pos())
        if self.kw("drop"):
            if self.kw("primary", "key"):
                return ("dropkey", "PRIMARY")
            if self.kw("foreign", "key"):
                return ("dropfk", self.ident())
            if self.kw("key") or self.kw("index"):
                return ("dropkey", self.ident())
            self.kw("column")
            return ("dropcol", self.ident())
        self.err()

    def pos(self):
        if self.kw("first"):
            return True
        if self.kw("after"):
            return self.ident()
        return None


def parse(sql):
    return P(sql).statement()


# ------------------------------------------------------------------ values

def q(v):
    return "'" + v.replace("\\", "\\\\").replace("'", "''").replace("\n", "\\n").replace("\0", "\\0") + "'"


def coerce(c, lit):
    """store a literal in a column (strict mode)"""
    if lit[0] == "null":
        return None
    text = lit[1] if lit[0] in ("str", "num", "lit") else None
    if lit[0] == "now":
        if c.type in ("datetime", "timestamp"):
            return datetime.datetime(2020, 1, 2, 3, 4, 5)
        raise SqlError(1292, "bad value")
    ty = c.type
    try:
        if ty in INTS:
            v = int(decimal.Decimal(text.strip()).to_integral_value(rounding=decimal.ROUND_HALF_UP))
            lo, hi = (0, UINTS[ty]) if c.uns else INTS[ty]
            if not lo <= v <= hi:
                raise SqlError(1264, "Out of range value for column '%s'" % c.name)
            return v
        if ty == "decimal":
            p, s = [int(x) for x in c.len.split(",")]
            v = decimal.Decimal(text.strip()).quantize(decimal.Decimal(1).scaleb(-s), rounding=decimal.ROUND_HALF_UP)
            if abs(v) >= decimal.Decimal(10) ** (p - s) or (c.uns and v < 0):
                raise SqlError(1264, "Out of range value for column '%s'" % c.name)
            return v
        if ty in FLOATS:
            return float(text)
        if ty == "year":
            return int(text)
        if ty == "date":
            return datetime.date.fromisoformat(text[:10])
        if ty in ("datetime", "timestamp"):
            return datetime.datetime.fromisoformat(text)
        if ty == "time":
            h, m, s = (text + ":00")[:8].split(":")
            return datetime.timedelta(hours=int(h), minutes=int(m), seconds=int(s))
        if ty == "bit":
            return bytes([int(text)])
    except SqlError:
        raise
    except Exception:
        raise SqlError(1366, "Incorrect value %r for column '%s'" % (text, c.name))
    if ty in CHARS | BINS:
        if len(text) > int(c.len):
            raise SqlError(1406, "Data too long for column '%s'" % c.name)
    if ty == "char":
        text = text.rstrip(" ")
    if ty == "enum":
        for e in c.enum:
            if e.lower() == text.lower():
                return e
        raise SqlError(1265, "Data truncated for column '%s'" % c.name)
    if ty == "set":
        parts = [x for x in text.split(",") if x != ""]
        if any(x not in c.enum for x in parts):
            raise SqlError(1265, "Data truncated for column '%s'" % c.name)
        return ",".join(e for e in c.enum if e in parts)
    if ty in BINS | BLOBS:
        return text.encode("utf8")
    return text


def totext(v):
    if v is None:
        return None
    if isinstance(v, bytes):
        return v.decode("utf8", "replace")
    return str(v)


def implicit(c):
    if c.default is not None:
        return coerce(c, c.default)
    if c.null:
        return None
    if c.type in INTS or c.type == "year":
        return 0
    if c.type == "decimal":
        return coerce(c, ("num", "0"))
    if c.type in FLOATS:
        return 0.0
    if c.type == "date":
        return datetime.date(1, 1, 1)
    if c.type in ("datetime", "timestamp"):
        return datetime.datetime(1, 1, 1)
    if c.type == "time":
        return datetime.timedelta(0)
    if c.type == "enum":
        return c.enum[0]
    if c.type in BINS | BLOBS:
        return b""
    return ""


def convert(old, new, v):
    """ALTER TABLE on existing data, leniently"""
    if v is None:
        return None if new.null else implicit(new)
    try:
        return coerce(new, ("str", totext(v)))
    except SqlError:
        return implicit(new) if not new.null else None


try:
    from pymysql.err import OperationalError as DriverError
except Exception:
    DriverError = Exception


class LostConnection(DriverError):
    def __init__(self, msg):
        super().__init__(2013, msg)


class Refused(SqlError, DriverError):
    """what the driver raises for an error of the server"""

    def __init__(self, code, msg):
        Exception.__init__(self, code, msg)
        self.code, self.msg = code, msg

    def __str__(self):
        return "(%s) %s" % (self.code, self.msg)


class Server:
    def __init__(self, style="8.0", charset="utf8mb4"):
        self.style = style
        self.charset = charset
        self.tables = {}
        self.fk_checks = True
        self.views = {}  # name -> its SELECT
        self._saved = None  # rows at the start of the open transaction

    # ---------------------------------------------------------- transactions
    def _touch(self):
        if self._saved is None:
            self._saved = {n: (list(t.rows), t.next_ai) for n, t in self.tables.items()}

    def commit(self):
        self._saved = None

    def rollback(self):
        if self._saved is not None:
            for n, (rows, ai) in self._saved.items():
                if n in self.tables:
                    self.tables[n].rows = rows
            self._saved = None

    def clone(self):
        s = Server(self.style, self.charset)
        s.tables = {n: t.clone() for n, t in self.tables.items()}
        s.fk_checks = self.fk_checks
        s.views = dict(self.views)
        return s

    # ---------------------------------------------------------- execution
    def execute(self, sql):
        st = parse(sql)
        return getattr(self, "do_" + st[0])(*st[1:])

    def table(self, name):
        if name in self.views:
            raise SqlError(1347, "'%s' is not BASE TABLE" % name)
        if name not in self.tables:
            raise SqlError(1146, "Table '%s' doesn't exist" % name)
        return self.tables[name]

    def do_checks(self, on):
        self.fk_checks = on

    def do_create(self, t, ine=False):
        self.commit()
        if t.name in self.views:
            raise SqlError(1050, "Table '%s' already exists" % t.name)
        if t.name in self.tables:
            if ine:
                return
            raise SqlError(1050, "Table '%s' already exists" % t.name)
        new = dict(self.tables)
        self._inline_keys(t, t.cols)
        self._name_fks(t, t.fks)
        self.finish(t, [f for f in t.fks])
        new[t.name] = t
        self.check_db(new, {t.name})
        self.tables = new

    def _inline_keys(self, t, cols):
        for c in cols:
            if c.pk:
                t.keys.append(Key("PRIMARY", "PRIMARY", [c.name]))
            if c.uq:
                t.keys.append(Key("UNIQUE", None, [c.name]))
            c.pk = c.uq = False

    def _name_fks(self, t, fks):
        for f in fks:
            if f.name is None:
                n = 1
                used = {x.name for x in t.fks}
                while "%s_ibfk_%d" % (t.name, n) in used:
                    n += 1
                f.name = "%s_ibfk_%d" % (t.name, n)

    def do_drop(self, names, ie=False):
        self.commit()
        new = dict(self.tables)
        for n in names:
            if n not in new:
                if ie:
                    continue
                raise SqlError(1051, "Unknown table '%s'" % n)
            del new[n]
        if self.fk_checks:
            for t in new.values():
                for f in t.fks:
                    if f.rtable in names:
                        raise SqlError(3730, "Cannot drop table '%s' referenced by a foreign key constraint '%s' on table '%s'." % (f.rtable, f.name, t.name))
        self.tables = new

    def do_alter(self, tn, acts):
        self.commit()
        t = self.table(tn).clone()
        old = self.tables[tn]
        # drops
        dropcols, dropkeys, dropfks, changes, adds = [], [], [], {}, []
        for a in acts:
            if a[0] == "dropcol":
                c = old.col(a[1])
                if c is None or c.name in dropcols:
                    raise SqlError(1091, "Can't DROP '%s'; check that column/key exists" % a[1])
                dropcols.append(c.name)
            elif a[0] == "dropkey":
                k = old.primary() if a[1] == "PRIMARY" else old.key(a[1])
                if k is None or k in dropkeys:
                    raise SqlError(1091, "Can't DROP '%s'; check that column/key exists" % a[1])
                dropkeys.append(k)
            elif a[0] == "dropfk":
                f = next((f for f in old.fks if f.name.lower() == a[1].lower()), None)
                if f is None or f.name in dropfks:
                    raise SqlError(1091, "Can't DROP '%s'; check that column/key exists" % a[1])
                dropfks.append(f.name)
            elif a[0] == "change":
                c = old.col(a[1])
                if c is None or c.name in changes or c.name in dropcols:
                    raise SqlError(1054, "Unknown column '%s' in '%s'" % (a[1], tn))
                changes[c.name] = (a[2], a[3])
        if set(changes) & set(dropcols):
            raise SqlError(1054, "Unknown column in '%s'" % tn)
        # a column used by a foreign key cannot go away, whatever the checks say
        for f in old.fks:
            if f.col in dropcols and f.name not in dropfks:
                raise SqlError(1828, "Cannot drop column '%s': needed in a foreign key constraint '%s'" % (f.col, f.name))
        for o in self.tables.values():
            for f in o.fks:
                if f.rtable == tn and f.rcol in dropcols and not (o.name == tn and f.name in dropfks):
                    raise SqlError(1829, "Cannot drop column '%s': needed in a foreign key constraint '%s' of table '%s'" % (f.rcol, f.name, o.name))
        cols = []
        late = []
        for c in old.cols:
            if c.name in dropcols:
                continue
            if c.name in changes:
                nc, pos = changes[c.name]
                nc = nc.copy()
                if pos is None:
                    cols.append(nc)
                else:
                    late.append((nc, pos))
            else:
                cols.append(c.copy())
        order = [("addcol", a[1].copy(), a[2]) for a in acts if a[0] == "addcol"]
        newcols = [x[1] for x in order]
        for _, c, pos in [("change", c, p) for c, p in late] + order:
            if pos is None:
                cols.append(c)
            elif pos is True:
                cols.insert(0, c)
            else:
                k = next((i for i, x in enumerate(cols) if x.name.lower() == pos.lower()), None)
                if k is None:
                    raise SqlError(1054, "Unknown column '%s' in '%s'" % (pos, tn))
                cols.insert(k + 1, c)
        if not cols:
            raise SqlError(1090, "You can't delete all columns with ALTER TABLE; use DROP TABLE instead")
        t.cols = cols
        ren = {o: nc.name for o, (nc, _) in changes.items()}
        keys = []
        for k, orig in zip(t.keys, old.keys):
            if orig in dropkeys:
                continue
            k.cols = [ren.get(x, x) for x in k.cols if x not in dropcols]
            if k.cols:
                keys.append(k)
        t.keys = keys
        for a in acts:
            if a[0] == "addkey":
                t.keys.append(a[1].copy())
        self._inline_keys(t, newcols + [c for c, _ in changes.values()])
        t.fks = [f for f in t.fks if f.name not in dropfks]
        for f in t.fks:
            f.col = ren.get(f.col, f.col)
        addfks = []
        for a in acts:
            if a[0] == "addfk":
                f = a[1].copy()
                self._name_fks(t, [f])
                # MySQL 8: a name dropped and added in one statement is a duplicate
                if f.name in dropfks:
                    raise SqlError(1826, "Duplicate foreign key constraint name '%s'" % f.name)
                t.fks.append(f)
                addfks.append(f)
        self.finish(t, addfks)
        # data
        rows = []
        for r in old.rows:
            nr = {}
            for c in t.cols:
                if any(c is x for x in newcols):
                    nr[c.name] = implicit(c)
                    if c.ai:
                        nr[c.name] = t.next_ai
                        t.next_ai += 1
                    continue
                src = next((o for o, n in ren.items() if n == c.name), c.name)
                oc = old.col(src)
                nr[c.name] = r[src] if oc.deftuple() == c.deftuple() else convert(oc, c, r[src])
            rows.append(nr)
        t.rows = rows
        new = dict(self.tables)
        new[tn] = t
        self.check_db(new, {tn})
        self.tables = new

    def finish(self, t, addfks):
        """table level validation of a definition"""
        seen = set()
        for c in t.cols:
            if c.name.lower() in seen:
                raise SqlError(1060, "Duplicate column name '%s'" % c.name)
            seen.add(c.name.lower())
        pks = [k for k in t.keys if k.kind == "PRIMARY"]
        if len(pks) > 1:
            raise SqlError(1068, "Multiple primary key defined")
        for k in t.keys:
            ks = set()
            for x in k.cols:
                if t.col(x) is None:
                    raise SqlError(1072, "Key column '%s' doesn't exist in table" % x)
                if x.lower() in ks:
                    raise SqlError(1060, "Duplicate column name '%s'" % x)
                ks.add(x.lower())
                if t.col(x).type in TEXTS | BLOBS:
                    raise SqlError(1170, "BLOB/TEXT column '%s' used in key specification without a key length" % x)
                if t.col(x).type == "json":
                    raise SqlError(3152, "JSON column '%s' cannot be used in key specification." % x)
        for k in pks:
            for x in k.cols:
                c = t.col(x)
                if c.null and c.nullset:
                    raise SqlError(1171, "All parts of a PRIMARY KEY must be NOT NULL")
                c.null = False
        for k in t.keys:
            if k.name is None:
                base = k.cols[0]
                nm, n = base, 2
                while any(o.name and o.name.lower() == nm.lower() for o in t.keys):
                    nm = "%s_%d" % (base, n)
                    n += 1
                k.name = nm
        # an index for each new foreign key that has none
        for f in addfks:
            if t.col(f.col) is None:
                raise SqlError(1072, "Key column '%s' doesn't exist in table" % f.col)
            if not any(k.cols[0].lower() == f.col.lower() for k in t.keys):
                nm, n = f.name, 2
                while t.key(nm):
                    nm = "%s_%d" % (f.name, n)
                    n += 1
                t.keys.append(Key("INDEX", nm, [f.col]))
        names = set()
        for k in t.keys:
            if k.kind != "PRIMARY" and k.name.lower() == "primary":
                raise SqlError(1280, "Incorrect index name 'PRIMARY'")
            if k.name.lower() in names:
                raise SqlError(1061, "Duplicate key name '%s'" % k.name)
            names.add(k.name.lower())
        for c in t.cols:
            self.check_col(t, c)
        ais = [c for c in t.cols if c.ai]
        if len(ais) > 1 or (ais and not any(k.cols[0].lower() == ais[0].name.lower() for k in t.keys)):
            raise SqlError(1075, "Incorrect table definition; there can be only one auto column and it must be defined as a key")
        fn = set()
        for f in t.fks:
            if f.name.lower() in fn:
                raise SqlError(1826, "Duplicate foreign key constraint name '%s'" % f.name)
            fn.add(f.name.lower())

    def check_col(self, t, c):
        if c.ai and c.type not in set(INTS) | FLOATS:
            raise SqlError(1063, "Incorrect column specifier for column '%s'" % c.name)
        if c.ai:
            c.null = False
            if c.default is not None:
                raise SqlError(1067, "Invalid default value for '%s'" % c.name)
        if c.type in ("varchar", "varbinary") and int(c.len) > 16383:
            raise SqlError(1074, "Column length too big for column '%s'" % c.name)
        if c.type in ("char", "binary") and int(c.len) > 255:
            raise SqlError(1074, "Column length too big for column '%s'" % c.name)
        if c.coll is not None and c.cs is not None and coll_charset(c.coll) != c.cs:
            raise SqlError(1253, "COLLATION '%s' is not valid for CHARACTER SET '%s'" % (c.coll, c.cs))
        if c.enum and len(set(e.lower() for e in c.enum)) != len(c.enum):
            raise SqlError(1291, "Column '%s' has duplicated value" % c.name)
        if c.default is None:
            return
        if c.type in TEXTS | BLOBS | {"json"}:
            raise SqlError(1101, "BLOB, TEXT, GEOMETRY or JSON column '%s' can't have a default value" % c.name)
        if c.default == ("now",):
            if c.type not in ("datetime", "timestamp"):
                raise SqlError(1067, "Invalid default value for '%s'" % c.name)
            return
        try:
            coerce(c, ("str", c.default[1]))
        except SqlError:
            raise SqlError(1067, "Invalid default value for '%s'" % c.name)

    def check_db(self, tables, touched):
        """foreign key rules that hold after every DDL statement"""
        names = {}
        for t in tables.values():
            for f in t.fks:
                k = f.name.lower()
                if k in names:
                    raise SqlError(1826, "Duplicate foreign key constraint name '%s'" % f.name)
                names[k] = t.name
        for t in tables.values():
            for f in t.fks:
                if t.name not in touched and f.rtable not in touched:
                    continue
                c = t.col(f.col)
                if c is None:
                    raise SqlError(1072, "Key column '%s' doesn't exist in table" % f.col)
                if not any(k.cols[0].lower() == f.col.lower() for k in t.keys):
                    raise SqlError(1553, "Cannot drop index needed in foreign key constraint '%s'" % f.name)
                if "SET NULL" in (f.dele, f.upd) and not c.null:
                    raise SqlError(1830, "Column '%s' cannot be NOT NULL: needed in a foreign key constraint '%s' SET NULL" % (f.col, f.name))
                p = tables.get(f.rtable)
                if p is None:
                    if self.fk_checks:
                        raise SqlError(1824, "Failed to open the referenced table '%s'" % f.rtable)
                    continue
                pc = p.col(f.rcol)
                if pc is None:
                    raise SqlError(3734, "Failed to add the foreign key constraint. Missing column '%s' for constraint '%s' in the referenced table '%s'" % (f.rcol, f.name, f.rtable))
                if not self.compatible(t, c, p, pc):
                    raise SqlError(3780, "Referencing column '%s' and referenced column '%s' in foreign key constraint '%s' are incompatible." % (f.col, f.rcol, f.name))
                if not any(k.cols[0].lower() == f.rcol.lower() for k in p.keys):
                    raise SqlError(1822, "Failed to add the foreign key constraint. Missing index for constraint '%s' in the referenced table '%s'" % (f.name, f.rtable))

    def compatible(self, t, c, p, pc):
        if c.type != pc.type or c.uns != pc.uns:
            return False
        if c.type == "decimal" and c.len != pc.len:
            return False
        if c.type in CHARS | TEXTS | {"enum", "set"}:
            if self.effective(t, c) != self.effective(p, pc):
                return False
        return True

    # ---------------------------------------------------------- character sets
    def table_cs(self, t):
        cs = (t.opts.get("CHARSET") or (coll_charset(t.opts["COLLATE"].lower()) if t.opts.get("COLLATE") else self.charset)).lower()
        coll = (t.opts.get("COLLATE") or DEFCOLL.get(cs, {}).get(self.style, cs + "_general_ci")).lower()
        return cs, coll

    def effective(self, t, c):
        tcs, tcoll = self.table_cs(t)
        if c.coll:
            return (c.cs or coll_charset(c.coll), c.coll)
        if c.cs:
            return (c.cs, DEFCOLL.get(c.cs, {}).get(self.style, c.cs + "_general_ci"))
        return (tcs, tcoll)

    # ---------------------------------------------------------- rows
    def do_insert(self, tn, cols, groups):
        t = self.table(tn)
        names = [c.name for c in t.cols] if cols is None else cols
        for n in names:
            if t.col(n) is None:
                raise SqlError(1054, "Unknown column '%s' in 'field list'" % n)
        if len(set(n.lower() for n in names)) != len(names):
            raise SqlError(1110, "Column specified twice")
        self._touch()
        rows = list(t.rows)
        for g in groups:
            if len(g) != len(names):
                raise SqlError(1136, "Column count doesn't match value count at row 1")
            given = {t.col(n).name: v for n, v in zip(names, g)}
            r = {}
            for c in t.cols:
                v = given.get(c.name, ("default",))
                if v[0] == "default" or (v[0] == "null" and c.ai):
                    if c.ai:
                        r[c.name] = t.next_ai
                        t.next_ai += 1
                    elif c.default is None and not c.null:
                        raise SqlError(1364, "Field '%s' doesn't have a default value" % c.name)
                    else:
                        r[c.name] = implicit(c)
                else:
                    if v[0] == "null" and not c.null:
                        raise SqlError(1048, "Column '%s' cannot be null" % c.name)
                    r[c.name] = coerce(c, v)
                if c.ai and isinstance(r[c.name], int):
                    t.next_ai = max(t.next_ai, r[c.name] + 1)
            rows.append(r)
        self.unique(t, rows)
        t.rows = rows

    def unique(self, t, rows):
        for k in t.keys:
            if k.kind == "INDEX":
                continue
            seen = set()
            for r in rows:
                v = tuple(r[t.col(x).name] for x in k.cols)
                if any(x is None for x in v):
                    continue
                if v in seen:
                    raise SqlError(1062, "Duplicate entry %r for key '%s.%s'" % (v, t.name, k.name))
                seen.add(v)

    def match(self, t, r, where):
        if where is None:
            return True
        for n, lit in where:
            c = t.col(n)
            if c is None:
                raise SqlError(1054, "Unknown column '%s' in 'where clause'" % n)
            v = r[c.name]
            if v is None or lit[0] == "null":
                return False
            if c.type in NUM or c.type == "year":
                try:
                    if decimal.Decimal(str(v)) != decimal.Decimal(lit[1].strip()):
                        return False
                except decimal.InvalidOperation:
                    return False
            elif totext(v) != lit[1]:
                return False
        return True

    def do_update(self, tn, sets, where):
        t = self.table(tn)
        for n, _ in sets:
            if t.col(n) is None:
                raise SqlError(1054, "Unknown column '%s' in 'field list'" % n)
        rows = []
        self._touch()
        hits = 0
        for r in t.rows:
            if self.match(t, r, where):
                hits += 1
                r = dict(r)
                for n, v in sets:
                    c = t.col(n)
                    if v[0] == "default":
                        r[c.name] = implicit(c)
                        continue
                    if v[0] == "null" and not c.null:
                        raise SqlError(1048, "Column '%s' cannot be null" % c.name)
                    r[c.name] = coerce(c, v)
            rows.append(r)
        if not t.rows:
            self.match(t, {c.name: None for c in t.cols}, where)
        self.unique(t, rows)
        t.rows = rows
        return hits

    def do_delete(self, tn, where):
        t = self.table(tn)
        if where:
            for n, _ in where:
                if t.col(n) is None:
                    raise SqlError(1054, "Unknown column '%s' in 'where clause'" % n)
        self._touch()
        n = len(t.rows)
        t.rows = [r for r in t.rows if not self.match(t, r, where)]
        return n - len(t.rows)

    # ---------------------------------------------------------- reading
    def do_tables(self):
        return [{"Tables_in_app": n} for n in sorted(list(self.tables) + list(self.views))]

    def do_showcreate(self, n):
        if n in self.views:
            return [{"View": n, "Create View": self.views[n], "character_set_client": "utf8mb4", "collation_connection": "utf8mb4_general_ci"}]
        return [{"Table": n, "Create Table": self.show(self.table(n))}]

    def do_select(self, cols, tn, where):
        t = self.table(tn)
        names = [c.name for c in t.cols] if cols is None else [t.col(c).name for c in cols]
        return [{n: r[n] for n in names} for r in t.rows if self.match(t, r, where)]

    def show_col(self, t, c):
        new = self.style == "8.0"
        ty = c.type
        if ty in INTS:
            if new:
                if ty == "tinyint" and c.len == "1" and not c.uns:
                    ty += "(1)"
            else:
                ty += "(%s)" % (c.len or W57[c.type][1 if c.uns else 0])
        elif ty in ("enum", "set"):
            ty += "(%s)" % ",".join(q(e) for e in c.enum)
        elif ty == "year":
            ty += "" if new else "(4)"
        elif c.len is not None and ty not in FLOATS and ty not in TEXTS | BLOBS | DATES:
            ty += "(%s)" % c.len
        s = "`%s` %s" % (c.name, ty)
        if c.uns:
            s += " unsigned"
        if c.type in CHARS | TEXTS | {"enum", "set"}:
            tcs, tcoll = self.table_cs(t)
            cs, coll = self.effective(t, c)
            prim = DEFCOLL.get(cs, {}).get(self.style, cs + "_general_ci")
            if new:
                if coll != tcoll:
                    s += " CHARACTER SET %s" % cs
                    if coll != prim or c.coll:
                        s += " COLLATE %s" % coll
            else:
                if cs != tcs:
                    s += " CHARACTER SET %s" % cs
                if coll != prim:
                    s += " COLLATE %s" % coll
        if not c.null:
            s += " NOT NULL"
        elif c.type == "timestamp":
            s += " NULL"
        if c.ai:
            s += " AUTO_INCREMENT"
        elif c.default == ("now",):
            s += " DEFAULT CURRENT_TIMESTAMP"
        elif c.default is not None:
            d = c.default[1]
            v = coerce(c, ("str", d))
            if c.type in INTS or c.type == "decimal":
                d = str(v)
            elif c.type in FLOATS:
                d = repr(v)
                if d.endswith(".0"):
                    d = d[:-2]
            elif c.type in ("datetime", "timestamp"):
                d = v.strftime("%Y-%m-%d %H:%M:%S") if v.year >= 1000 else str(v)
            elif c.type == "date":
                d = v.isoformat()
            elif c.type == "year":
                d = str(v)
            elif c.type == "time":
                d = d if d.count(":") == 2 else d + ":00"
            elif c.type in ("enum", "set"):
                d = v
            s += " DEFAULT %s" % q(d)
        elif c.null and c.type not in TEXTS | BLOBS | {"json"}:
            s += " DEFAULT NULL"
        elif c.null and c.type == "json":
            s += " DEFAULT NULL"
        return s

    def show(self, t):
        parts = [self.show_col(t, c) for c in t.cols]
        def rank(k):
            return {"PRIMARY": 0, "UNIQUE": 1, "INDEX": 2}[k.kind]
        for k in sorted(t.keys, key=rank):
            cl = ",".join("`%s`" % x for x in k.cols)
            if k.kind == "PRIMARY":
                parts.append("PRIMARY KEY (%s)" % cl)
            else:
                parts.append("%sKEY `%s` (%s)" % ("UNIQUE " if k.kind == "UNIQUE" else "", k.name, cl))
        for f in sorted(t.fks, key=lambda f: f.name):
            s = "CONSTRAINT `%s` FOREIGN KEY (`%s`) REFERENCES `%s` (`%s`)" % (f.name, f.col, f.rtable, f.rcol)
            for w, a in (("DELETE", f.dele), ("UPDATE", f.upd)):
                if self.style == "8.0":
                    if a != "NO ACTION":
                        s += " ON %s %s" % (w, a)
                elif a != "RESTRICT":
                    s += " ON %s %s" % (w, a)
            parts.append(s)
        tcs, tcoll = self.table_cs(t)
        opt = "ENGINE=%s" % t.opts.get("ENGINE", "InnoDB")
        if any(c.ai for c in t.cols) and t.next_ai > 1:
            opt += " AUTO_INCREMENT=%d" % t.next_ai
        opt += " DEFAULT CHARSET=%s" % tcs
        if self.style == "8.0" or tcoll != DEFCOLL.get(tcs, {}).get(self.style):
            opt += " COLLATE=%s" % tcoll
        return "CREATE TABLE `%s` (\n  %s\n) %s" % (t.name, ",\n  ".join(parts), opt)


# -------------------------------------------------------------- connection

class Cursor:
    def __init__(self, conn):
        self.conn = conn
        self.res = []
        self.rowcount = -1
        self.pos = 0

    def execute(self, sql, args=None):
        r = self.conn._run(sql, args)
        self.res = r if isinstance(r, list) else []
        self.rowcount = len(r) if isinstance(r, list) else (r if isinstance(r, int) else 0)
        self.pos = 0
        return self.rowcount

    def executemany(self, sql, args):
        n = 0
        for a in args:
            n += self.execute(sql, a)
        return n

    def __iter__(self):
        while self.pos < len(self.res):
            self.pos += 1
            yield self.res[self.pos - 1]

    def fetchone(self):
        if self.pos < len(self.res):
            self.pos += 1
            return self.res[self.pos - 1]
        return None

    def fetchall(self):
        r = self.res[self.pos:]
        self.pos = len(self.res)
        return r

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Connection:
    """what the driver sees; `fault` is (index of write statement, kind)"""

    def __init__(self, server, fault=None):
        self.server = server
        self.log = []  # ('sql', text) | ('commit',) | ('rollback',)
        self.writes = []
        self.fault = fault
        self.dead = False
        self.n = 0

    READS = ("show", "select", "describe", "desc ", "explain")

    def cursor(self, *a, **k):
        return Cursor(self)

    def _run(self, sql, args=None):
        if self.dead:
            raise LostConnection("connection is closed")
        if args is not None:  # as PyMySQL: with arguments, even none, percent signs are placeholders
            lit = lambda v: "NULL" if v is None else (str(v) if isinstance(v, (int, float)) else "'" + str(v).replace("\\", "\\\\").replace("'", "\\'") + "'")
            sql = sql % ({k: lit(v) for k, v in args.items()} if isinstance(args, dict) else tuple(lit(v) for v in args) if isinstance(args, (list, tuple)) else (lit(args),))
        self.log.append(("sql", sql))
        write = not sql.strip().lower().startswith(self.READS)
        if write:
            i = self.n
            self.n += 1
            self.writes.append(sql)
            if self.fault and self.fault[0] == i:
                kind = self.fault[1]
                if kind == "error":
                    raise Refused(1205, "Lock wait timeout exceeded")
                if kind == "after":  # the server executed it, the answer got lost
                    self.server.execute(sql)
                self.server.rollback()
                self.server.fk_checks = True
                self.dead = True
                raise LostConnection("Lost connection to MySQL server during query")
        try:
            return self.server.execute(sql)
        except SqlError as e:
            raise Refused(e.code, e.msg) from None

    def ping(self, reconnect=True):
        if self.dead and not reconnect:
            raise LostConnection("connection is closed")
        if self.dead:  # a new session
            self.server.rollback()
            self.server.fk_checks = True
            self.dead = False

    def commit(self):
        if self.dead:
            raise LostConnection("connection is closed")
        if self.fault and self.fault[0] == self.n and self.n:  # a fault right after the last statement
            kind = self.fault[1]
            self.n = -1
            if kind == "after":
                self.server.commit()
            self.server.rollback()
            self.dead = True
            raise LostConnection("Lost connection to MySQL server during query")
        self.log.append(("commit",))
        self.server.commit()

    def rollback(self):
        self.log.append(("rollback",))
        self.server.rollback()

    def close(self):
        self.server.rollback()

    def begin(self):
        self.server.commit()
