"""P13: input that can't be understood is reported, never dropped or crashed on."""
import os
import shutil
import tempfile
import account
import model
import render
import texts
from boot import Skip, Violation

from mygrations.formats.mysql.file_reader.database import Database as FileDatabase

PROPERTY = "P13"
RULE = "the text was made broken in a known way, or is a mutation that is still partly read (a table or an error)"
QUICK, THOROUGH = 1300, 40000
ROOT = None

COMMANDS = ["UPDATE `users` SET `name`='x' WHERE id=1;", "DELETE FROM `users`;", "ALTER TABLE `users` ADD `x9` INT;", "DROP TABLE `users`;", "DROP TABLE IF EXISTS users;", "SELECT 1;", "SET NAMES utf8;", "USE `db`;", "CREATE VIEW v AS SELECT 1;",
            "CREATE INDEX i ON users (id);", "CREATE UNIQUE INDEX i ON users (id);", "CREATE DATABASE x;", "CREATE TRIGGER t BEFORE INSERT ON users FOR EACH ROW SET NEW.x = 1;", "CREATE TEMPORARY TABLE tmp (id INT);", "CREATE TABLE copy LIKE users;",
            "REPLACE INTO users (id) VALUES (91);", "INSERT IGNORE INTO users (id) VALUES (91);", "INSERT INTO users SET id=91;", "INSERT INTO users VALUES (91);", "INSERT INTO users (id) SELECT 1;", "INSERT users (id) VALUES (91);",
            "INSERT INTO users (id) VALUES (91) ON DUPLICATE KEY UPDATE id=1;", "LOCK TABLES users WRITE;", "garbage", "x;", "CREATE", "INSERT", "CREATE TABLE", "INSERT INTO", "CREATE TABLE z9;", "CREATE TABLE z9 ();", "INSERT INTO z9 () VALUES ();", "TABLE z9 (id INT);",
            "CREATE TABLE z9 (id INT) PARTITION BY HASH(id);", "CREATE TABLE z9 (id INT) SELECT 1;", "\u00e9", "(", ")", "'", "\"text\";", "COMMIT;", "DELIMITER //", "CREATE TABLE z9 id INT;", "CREATE TABLE z9 (id INT", "CREATE TABLE z9 (id INT));"]
DEFS = ["`x9` GEOMETRY", "`x9` POINT NOT NULL", "x9 FOO(10)", "x9", "`x9` INT COMMENT 'a note'", "x9 INT ZEROFILL", "x9 TIMESTAMP NULL ON UPDATE CURRENT_TIMESTAMP", "x9 DATETIME DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP",
        "x9 INT GENERATED ALWAYS AS (1+1)", "x9 INT AS (1) STORED", "x9 INT CHECK (x9 > 1)", "CHECK (id > 0)", "CONSTRAINT c9 CHECK (id > 0)", "FULLTEXT KEY ft9 (id)", "SPATIAL KEY sp9 (id)", "KEY k9 (id DESC)", "KEY k9 (id) USING BTREE", "KEY k9 (id) COMMENT 'x'",
        "x9 INT INVISIBLE", "x9 VARCHAR(20) BINARY", "x9 VARCHAR(20) DEFAULT (UUID())", "x9 INT DEFAULT 'a", "KEY k9", "KEY k9 (", "KEY k9 ()", "KEY `k9 (id)", "UNIQUE", "PRIMARY KEY", "PRIMARY KEY ()", "CONSTRAINT `f9` FOREIGN KEY (id)", "CONSTRAINT f9 FOREIGN KEY (id) REFERENCES x9",
        "CONSTRAINT `f9` FOREIGN KEY (`id`) REFERENCES `z9` (`id`) ON DELETE EXPLODE", "CONSTRAINT f9 FOREIGN KEY (id) REFERENCES z9 (id) MATCH FULL", "x9 INT 5", "x9 ENUM()", "x9 ENUM", "x9 ENUM('a' 'b' c)", "x9 DECIMAL(10;2)", "x9 INT(", "x9 INT(a)", "x9 VARCHAR(20", "x9 INT NOT", "x9 INT DEFAULT", "x9 INT UNSIGNED UNSIGNED FOO"]
POOL = ["(", ")", ",", ";", "'", "`", '"', "\\", "''", "CREATE", "TABLE", "INSERT", "INTO", "VALUES", "KEY", "PRIMARY", "UNIQUE", "CONSTRAINT", "FOREIGN", "REFERENCES", "ON", "DELETE", "CASCADE", "SET", "NULL", "NOT", "DEFAULT", "AUTO_INCREMENT", "INT", "VARCHAR(20)", "UNSIGNED", "ENUM('a')", "x9",
        "`x9`", "'x9'", "1", "0", "-1", "1.5", "=", "ENGINE=InnoDB", "COMMENT 'x'", "--", "-- ", "#", "/*", "*/", "/* x */", "id", "`id`", "COLLATE", "CHARACTER SET", "utf8", "IF NOT EXISTS", "\n", "  ", "\x00", "\u00e9", ".", "@", "PRIMARY KEY", "CURRENT_TIMESTAMP", "TRUE"]


def setup():
    global ROOT
    ROOT = tempfile.mkdtemp(prefix="p13_")
    os.chdir(ROOT)


def teardown():
    os.chdir("/")
    shutil.rmtree(ROOT, ignore_errors=True)


def gen(g, tier):
    kind = g.weighted([(6, "fault"), (8, "mutate"), (2, "noise")])
    if kind == "noise":
        n = g.int(0, 14)
        return {"kind": "noise", "expect": None, "text": [(" " if g.chance(70) else "").join(g.pick(POOL) if g.chance(75) else texts.text(g, 1, 3) for _ in range(n))]}
    s = model.gen_schema(g, {"odd": True, "maxtables": 2, "mintables": 1, "track": True, "maxcols": 3, "maxfks": 1})
    model.gen_row_pair(g, {"tables": []}, s, True)
    sp = g.int(0, 300)
    if kind == "mutate":
        text = render.schema_sql(s, sp, g.pick([1, 2]))
        ops = []
        for _ in range(g.weighted([(6, 1), (3, 2), (1, 4)])):
            text = mutate(g, text, ops)
        return {"kind": "mutate", "expect": None, "text": [text], "ops": ops}
    cr, ins = render.commands(s, sp, 1)
    return fault(g, s, cr, ins)


def spans(text):
    try:
        return account.lex(text)
    except account.SqlError:
        return []


def mutate(g, text, ops):
    toks = spans(text)
    op = g.pick(["del", "del", "dup", "swap", "ins", "ins", "rep", "delchar", "inschar", "cut", "repeat"])
    ops.append(op)
    if op in ("delchar", "inschar", "cut") or not toks:
        i = g.int(0, len(text))
        if op == "delchar":
            return text[:i] + text[i + 1:]
        if op == "cut":
            return text[:i] + text[i + g.int(0, 30):]
        return text[:i] + g.pick(POOL) + text[i:]
    k = g.int(0, len(toks) - 1)
    t = toks[k]
    if op == "del":
        return text[:t.s] + text[t.e:]
    if op == "dup":
        return text[:t.e] + " " + text[t.s:t.e] + text[t.e:]
    if op == "ins":
        return text[:t.s] + g.pick(POOL) + " " + text[t.s:]
    if op == "rep":
        return text[:t.s] + g.pick(POOL) + text[t.e:]
    if op == "swap" and k + 1 < len(toks):
        u = toks[k + 1]
        return text[:t.s] + text[u.s:u.e] + text[t.e:u.s] + text[t.s:t.e] + text[u.e:]
    u = toks[min(len(toks) - 1, k + g.int(0, 8))]
    return text[:u.e] + " " + text[t.s:u.e] + text[u.e:]


def fault(g, s, cr, ins):
    cmds = cr + ins
    what = g.pick(["command", "definition", "definition", "truncate", "truncate", "comment", "quote", "nocomma", "duptable", "dupcol", "dupkey", "dupfk", "dupaction", "duprow", "rowtable", "rowcol", "rowdupcol", "rowcount", "rowid", "rowvalue"])
    i = g.int(0, len(cmds) - 1)
    t = g.pick(s["tables"])
    n = t["name"]
    ti = s["tables"].index(t)
    if what == "command":
        cmds.insert(g.int(0, len(cmds)), g.pick(COMMANDS))
    elif what == "definition":
        a, b, commas = account.body(cr[ti])
        at = g.pick([a] + [c + 1 for c in commas] + [b])
        d = g.pick(DEFS)
        cmds[ti] = cr[ti][:at] + (" " + d + ", " if at != b else ", " + d) + cr[ti][at:]
        what += ": " + d
    elif what == "truncate":
        toks = spans(cmds[i])
        depth, spots = 0, []
        for x in toks:
            if x.k == "op" and x.v == ")":
                spots.append(x.s)
                depth -= 1
            elif depth > 0:
                spots.append(x.s)
                if x.k in ("str", "bq"):
                    spots.append(x.e - 1)
            if x.k == "op" and x.v == "(":
                depth += 1
        cmds[i] = cmds[i][:g.pick(spots)] + g.pick(["", ";", "\n"])
        if g.chance(40):
            cmds = cmds[:i + 1]
    elif what == "comment":
        toks = spans(cmds[i])
        at = g.pick([x.s for x in toks] + [toks[-1].e])
        cmds[i] = cmds[i][:at] + "/* open" + cmds[i][at:].replace("*/", "")
        cmds = cmds[:i + 1] + [c.replace("*/", "") for c in cmds[i + 1:]]
    elif what == "quote":
        toks = [x for x in spans(cmds[i]) if x.k in ("str", "bq")]
        if not toks:
            return {"kind": "fault", "expect": None, "what": what, "text": cmds}
        x = g.pick(toks)
        at = g.pick([x.s, x.e - 1])
        cmds[i] = cmds[i][:at] + cmds[i][at + 1:]
        text = "\n".join(cmds)
        if spans(text):
            return {"kind": "mutate", "expect": None, "text": [text], "ops": ["quote"]}
        return {"kind": "fault", "expect": "error", "what": what, "text": [text]}
    elif what == "nocomma":
        a, b, commas = account.body(cr[ti])
        if not commas:
            return {"kind": "fault", "expect": None, "what": what, "text": cmds}
        at = g.pick(commas)
        cmds[ti] = cr[ti][:at] + " " + cr[ti][at + 1:]
    elif what == "duptable":
        again = cr[ti] if g.chance(50) else "CREATE TABLE %s (`other` INT);" % n
        cmds.insert(g.int(0, len(cmds)), again)
    elif what in ("dupcol", "dupkey", "dupfk", "dupaction"):
        a, b, commas = account.body(cr[ti])
        ks = [k for k in t["keys"] if k["kind"] != "PRIMARY" and not k["name"].lower().startswith(k["cols"][0].lower())]
        if what == "dupcol":
            c = g.pick(t["cols"])["name"]
            d = "`%s` %s" % (c, g.pick(["INT", "VARCHAR(20)", "text", "DATE NOT NULL"]))
        elif what == "dupkey" and ks:
            d = "%s `%s` (`%s`)" % (g.pick(["KEY", "UNIQUE KEY"]), g.pick(ks)["name"], g.pick(t["cols"])["name"])
        elif what == "dupfk" and t["fks"]:
            f = g.pick(t["fks"])
            d = "CONSTRAINT `%s` FOREIGN KEY (`%s`) REFERENCES `%s` (`%s`)%s" % (f["name"], f["col"], f["rtable"], f["rcol"], g.pick(["", " ON DELETE CASCADE"]))
        elif what == "dupaction" and t["fks"]:
            f = g.pick(t["fks"])
            w = g.pick(["DELETE", "UPDATE"])
            d = "CONSTRAINT `contradiction` FOREIGN KEY (`%s`) REFERENCES `%s` (`%s`) ON %s" % (f["col"], f["rtable"], f["rcol"], (" ON " if g.chance(70) else g.pick([", ON ", " ON %s CASCADE ON " % ("UPDATE" if w == "DELETE" else "DELETE")])).join("%s %s" % (w, x) for x in g.some(["CASCADE", "NO ACTION", "RESTRICT"], 2, 2)))
        else:
            return {"kind": "fault", "expect": None, "what": what, "text": cmds}
        at = g.pick([a] + [c + 1 for c in commas] + [b])
        cmds[ti] = cr[ti][:at] + (" " + d + ", " if at != b else ", " + d) + cr[ti][at:]
    elif what == "duprow":
        ts = [x for x in s["tables"] if x.get("rows")]
        if not ts:
            return {"kind": "fault", "expect": None, "what": what, "text": cmds}
        t = g.pick(ts)
        r = g.pick(t["rows"])
        cols = list(r) if g.chance(50) else ["id"]
        cmds.insert(g.int(0, len(cmds)), render.insert_sql(render.S(g.int(0, 9), 1), t["name"], cols, [[r[c] for c in cols]]))
    elif what == "rowtable":
        cmds.insert(g.int(0, len(cmds)), "INSERT INTO `%s` (`id`) VALUES (%s);" % (g.pick(["nowhere", n + "x", n[:-1] or "q", n.swapcase()]), g.pick(["1", "'a'"])))
    elif what == "rowcol":
        cmds.insert(g.int(0, len(cmds)), "INSERT INTO `%s` (%s) VALUES (9191, 1);" % (n, g.pick(["`id`, `nowhere`", "`id`, `ID_x`"])))
    elif what == "rowdupcol":
        # a column twice, and as many values as there are columns
        others = [c["name"] for c in t["cols"] if c["name"] != "id"]
        if not others:
            return {"kind": "fault", "expect": None, "what": what, "text": cmds}
        c = g.pick(others)
        names = ["id"] + g.some([x for x in others if x != c], 0, 3)
        names.insert(g.int(0, len(names)), c)
        names.insert(g.int(0, len(names)), g.pick([c, "id"]))
        cmds.insert(g.int(0, len(cmds)), "INSERT INTO `%s` (%s) VALUES (%s);" % (n, ", ".join("`%s`" % x for x in names), ", ".join(str(9191 + i) for i in range(len(names)))))
    elif what == "rowcount":
        cmds.insert(g.int(0, len(cmds)), "INSERT INTO `%s` (`id`) VALUES %s;" % (n, g.pick(["(9191, 2)", "(9191), (9192, 1)", "(9191, 1, 1), (9192)", "()", "(9191,)", "(,9191)", "(9191", "9191", "(9191) (9192", "(9191),"])))
    elif what == "rowid":
        cmds.insert(g.int(0, len(cmds)), "INSERT INTO `%s` %s;" % (n, g.pick(["(`id`) VALUES (NULL)", "(`id`) VALUES ('')", "(`id`) VALUES (null), (9191)", "(`%s`) VALUES ('1')" % (t["cols"][-1]["name"] if t["cols"][-1]["name"] != "id" else "other")])))
    elif what == "rowvalue":
        cmds.insert(g.int(0, len(cmds)), "INSERT INTO `%s` (`id`) VALUES (%s);" % (n, g.pick(["abc", "NOW()", "1+1", "`x`", "9191 9192", "'9191' 'x", "x'41", "DEFAULT", "@a", "9191 -- x"])))
    parts = ["\n".join(cmds)]
    if what in ("duptable", "duprow", "rowtable", "rowcol") and g.chance(40):
        k = g.int(1, len(cmds))
        parts = [p for p in ("\n".join(cmds[:k]), "\n".join(cmds[k:])) if p]
    return {"kind": "fault", "expect": "error", "what": what, "text": parts}


def run(case, ev):
    for x in case["text"]:
        if "\0" not in x and os.path.exists(x) or x in ("", "."):
            raise Skip("this names a file")
    text = "\n".join(case["text"])
    db = FileDatabase(case["text"] if len(case["text"]) > 1 else case["text"][0])
    errors, warnings = list(db.errors), list(db.warnings)
    for e in errors + warnings:
        if not isinstance(e, str) or not e:
            raise Violation("%r is no message\n%s" % (e, text))
    if case["kind"] == "fault":
        ev.label(case["what"].split(":")[0])
        if case["expect"]:
            ev.nontrivial()
            if not errors:
                raise Violation("broken input (%s) is read without an error\n%s" % (case["what"], text))
        return
    if errors or db.tables:
        ev.nontrivial()
    ev.label("%s %s" % (case["kind"], "reported" if errors else "accepted"))
    if errors:
        return
    d = account.check(text, db)
    if d:
        raise Violation("%s\n%s" % (d, text))
