"""Tokenizer for MySQL statements, written from the MySQL manual (string
literals, escapes, comments, quoted identifiers), independent of the code under
test."""


class SqlError(Exception):
    def __init__(self, code, msg):
        super().__init__("(%s) %s" % (code, msg))
        self.code = code
        self.msg = msg


ESC = {"0": "\0", "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a"}
IDCH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$")


class Tok:
    __slots__ = ("k", "v", "s", "e")

    def __init__(self, k, v, s, e):
        self.k, self.v, self.s, self.e = k, v, s, e

    def __repr__(self):
        return "%s:%r" % (self.k, self.v)


def lex(sql):
    """list of tokens: id (unquoted word), bq (`name`), str, num, op"""
    out = []
    i, n = 0, len(sql)
    while i < n:
        c = sql[i]
        if c.isspace():
            i += 1
            continue
        if c == "#" or (sql.startswith("--", i) and (i + 2 >= n or sql[i + 2].isspace() or ord(sql[i + 2]) < 32)):
            j = sql.find("\n", i)
            i = n if j < 0 else j + 1
            continue
        if sql.startswith("/*", i):
            j = sql.find("*/", i + 2)
            if j < 0:
                raise SqlError(1064, "unclosed comment")
            i = j + 2
            continue
        if c == "`":
            j = i + 1
            buf = []
            while True:
                if j >= n:
                    raise SqlError(1064, "unclosed identifier")
                if sql[j] == "`":
                    if sql.startswith("``", j):
                        buf.append("`")
                        j += 2
                        continue
                    break
                buf.append(sql[j])
                j += 1
            out.append(Tok("bq", "".join(buf), i, j + 1))
            i = j + 1
            continue
        if c in "'\"":
            j = i + 1
            buf = []
            while True:
                if j >= n:
                    raise SqlError(1064, "unclosed string literal")
                d = sql[j]
                if d == "\\":
                    if j + 1 >= n:
                        raise SqlError(1064, "unclosed string literal")
                    e = sql[j + 1]
                    if e in "%_":
                        buf.append("\\" + e)
                    else:
                        buf.append(ESC.get(e, e))
                    j += 2
                    continue
                if d == c:
                    if sql.startswith(c + c, j):
                        buf.append(c)
                        j += 2
                        continue
                    break
                buf.append(d)
                j += 1
            out.append(Tok("str", "".join(buf), i, j + 1))
            i = j + 1
            continue
        if c in IDCH or ord(c) >= 128:
            j = i
            while j < n and (sql[j] in IDCH or ord(sql[j]) >= 128):
                j += 1
            w = sql[i:j]
            if (w.isdecimal() and w.isascii()):
                if j < n and sql[j] == "." and j + 1 < n and sql[j + 1] in "0123456789":
                    k = j + 1
                    while k < n and sql[k] in "0123456789":
                        k += 1
                    out.append(Tok("num", sql[i:k], i, k))
                    i = k
                    continue
                out.append(Tok("num", w, i, j))
            else:
                out.append(Tok("id", w, i, j))
            i = j
            continue
        out.append(Tok("op", c, i, i + 1))
        i += 1
    return out


RESERVED = set("""accessible add all alter analyze and as asc asensitive before between bigint binary blob both by call cascade case
change char character check collate column condition constraint continue convert create cross cube cume_dist current_date current_time
current_timestamp current_user cursor database databases day_hour day_microsecond day_minute day_second dec decimal declare default delayed
delete dense_rank desc describe deterministic distinct distinctrow div double drop dual each else elseif empty enclosed escaped except exists
exit explain false fetch first_value float float4 float8 for force foreign from fulltext function generated get grant group grouping groups
having high_priority hour_microsecond hour_minute hour_second if ignore in index infile inner inout insensitive insert int int1 int2 int3 int4
int8 integer intersect interval into io_after_gtids io_before_gtids is iterate join json_table key keys kill lag last_value lateral lead
leading leave left like limit linear lines load localtime localtimestamp lock long longblob longtext loop low_priority master_bind
master_ssl_verify_server_cert match maxvalue mediumblob mediumint mediumtext middleint minute_microsecond minute_second mod modifies natural
not no_write_to_binlog nth_value ntile null numeric of on optimize optimizer_costs option optionally or order out outer outfile over
partition percent_rank precision primary procedure purge range rank read reads read_write real recursive references regexp release rename
repeat replace require resignal restrict return revoke right rlike row rows row_number schema schemas second_microsecond select sensitive
separator set show signal smallint spatial specific sql sqlexception sqlstate sqlwarning sql_big_result sql_calc_found_rows sql_small_result
ssl starting stored straight_join system table terminated then tinyblob tinyint tinytext to trailing trigger true undo union unique unlock
unsigned update usage use using utc_date utc_time utc_timestamp values varbinary varchar varcharacter varying virtual when where while window
with write xor year_month zerofill""".split())
