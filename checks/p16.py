"""P16: schema errors stop everything; no plan, and nothing is sent to the database."""
import contextlib
import copy
import io
import os
import shutil
import tempfile
import account
import model
import plan
import render
import sim
from boot import Violation

from mygrations.core import commands
from mygrations.drivers.pymysql.pymysql import PyMySQL
from mygrations.formats.mysql.file_reader.database import Database as FileDatabase
from mygrations.mygrate import mygrate

PROPERTY = "P16"
RULE = "the files have errors or live tables can't be read, while the database and the files differ; or the files only have warnings"
ASSUMPTIONS = ["the server is lib/sim.py behind a recording connection"]
QUICK, THOROUGH = 400, 12000
ROOT = None

# [definition, words which have to be in a report]
DEFS = [["`cq9` FOO(10)", ""], ["`cq9` INT DEFAULT 'abc'", "cq9"], ["`cq9` ENUM('a') DEFAULT 'b'", "cq9"], ["`cq9` TEXT DEFAULT 'x'", "cq9"], ["`cq9` DATE UNSIGNED", "cq9"], ["KEY `kq9` (`gone9`)", "gone9"], ["UNIQUE KEY `kq9` (`gone9`)", "gone9"], ["KEY `%s` (`id`)" % ("kq9_" + "x" * 61), "kq9_"],
        ["CONSTRAINT `fq9` FOREIGN KEY (`id`) REFERENCES `gone9` (`id`)", "fq9"], ["CONSTRAINT `fq9` FOREIGN KEY (`gone9`) REFERENCES `tq9` (`id`)", "fq9"], ["`cq9` INT, `cq9` INT", "cq9"], ["KEY `kq9` (`id`), KEY `kq9` (`id`)", "kq9"], ["`cq9` INT 5", ""], ["`cq9` INT COMMENT 'a note'", ""], ["`cq9` BLOB CHARACTER SET utf8", "cq9"],
        ["`cq9` INT AUTO_INCREMENT, `dq9` INT AUTO_INCREMENT", "tq9"], ["PRIMARY KEY (`id`), PRIMARY KEY (`id`)", "tq9"], ["KEY k9 (`id`", ""], ["`cq9` VARCHAR(20", ""]]
COMMANDS = ["UPDATE `users` SET `name`='x';", "DELETE FROM `users`;", "DROP TABLE `users`;", "SELECT 1;", "garbage;", "ALTER TABLE users ADD x INT;", "CREATE VIEW v AS SELECT 1;", "x;", "TRUNCATE users;"]
# commands which don't hide anything: with force, the plan is the one without them
OTHER = [["INSERT INTO `gone9` (`id`) VALUES ('1');", "gone9"], ["CREATE TABLE `uq9` (`id` INT", ""], ["/* never closed", ""], ["INSERT INTO `gone9` (`id`) VALUES ('1", ""], ["CREATE TABLE `uq9` ();", ""]]


def setup():
    global ROOT
    ROOT = tempfile.mkdtemp(prefix="p16_")
    os.chdir(ROOT)


def teardown():
    os.chdir("/")
    shutil.rmtree(ROOT, ignore_errors=True)


def gen(g, tier):
    opt = {"odd": g.chance(20), "track": 1, "maxtables": 3, "mintables": g.pick([0, 1, 1]), "maxcols": 4}
    a, b = model.gen_pair(g, opt)
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    if g.chance(60):
        model.gen_row_pair(g, a, b, odd=g.chance(50))
    sp = g.int(0, 40)
    cr, ins = render.commands(b, sp, 1)
    cmds = cr + ins
    faults = []
    bad = g.weighted([(3, 0), (6, 1), (3, 2), (1, 3)])
    skipped = False
    for _ in range(bad):
        what = g.pick(["def", "def", "command", "other", "table", "row", "column"] + (["many"] if not any(f[0] == "many" for f in faults) and g.chance(30) else []))
        at = g.int(0, len(cmds))
        if what == "def":
            if any("tq9" in c for c in cmds):
                continue
            d, needle = g.pick(DEFS)
            pk = "" if "PRIMARY" in d else ", PRIMARY KEY (`id`)"
            cmds.insert(at, "CREATE TABLE `tq9` (`id` INT NOT NULL, %s);" % ((d + pk) if g.chance(50) or not pk else (pk[2:] + ", " + d)))
            if "(" in d and d.count("(") > d.count(")") and at < len(cmds) - 1 or "(" in d and d.count("(") > d.count(")"):
                needle = ""
            faults.append([what, needle])
            skipped = True
        elif what == "many":
            # so many errors that nobody may cut the list short
            n = g.int(4, 40)
            cmds.insert(at, "CREATE TABLE `mq%d` (`id` INT NOT NULL, PRIMARY KEY (`id`), %s);" % (at, ", ".join("KEY `mk%d_%d` (`gone%d_%d`)" % (at, i, at, i) for i in range(n))))
            faults += [[what, "gone%d_%d" % (at, i)] for i in range(n)]
            skipped = True
        elif what == "command":
            cmds.insert(at, g.pick(COMMANDS))
            faults.append([what, ""])
        elif what == "other":
            d, needle = g.pick(OTHER)
            cmds.append(d)
            faults.append([what, needle])
            skipped = True
            break
        elif what == "table" and cr:
            i = g.int(0, len(cr) - 1)
            cmds.insert(at, cr[i])
            faults.append([what, b["tables"][i]["name"]])
            skipped = True
        elif what in ("row", "column"):
            ts = [t for t in b["tables"] if t.get("rows")]
            if not ts:
                continue
            t = g.pick(ts)
            if what == "row":
                r = g.pick(t["rows"])
                cmds.insert(at, "INSERT INTO `%s` (%s) VALUES (%s);" % (t["name"], ",".join("`%s`" % c for c in r), ",".join("NULL" if v is None else render.quote(v) for v in r.values())))
                faults.append([what, t["name"]])
            else:
                cmds.insert(at, "INSERT INTO `%s` (`id`,`gone9`) VALUES ('q9','1');" % t["name"])
                faults.append([what, "gone9"])
            skipped = True
    return {"live": a, "want": b, "spell": sp, "cmds": cmds, "faults": faults, "plain": cr + ins if faults and not skipped else None, "style": g.pick(["8.0", "5.7"]), "warn": g.chance(30), "how": g.pick(["text", "list", "dir"]),
            "driver": g.chance(40), "noforce": g.pick(["no", "False", "None", "0"]), "unreadable": g.weighted([(5, None), (1, "bad"), (1, "junk")]), "print": g.chance(40)}


class Unreadable(PyMySQL):
    """a database with a table that uses what isn't supported"""
    odd = None

    def tables(self):
        out = super().tables()
        out["geo9"] = "CREATE TABLE `geo9` (\n  `id` int NOT NULL,\n  `p` point NOT NULL,\n  PRIMARY KEY (`id`)\n) ENGINE=InnoDB DEFAULT CHARSET=utf8mb4" if self.odd == "bad" else "CREATE DEFINER=`root` SOMETHING `geo9`"
        return out


def state(sv):
    return [sv.show(t) for t in sv.tables.values()], {n: copy.deepcopy(t.rows) for n, t in sv.tables.items()}, sorted(sv.views), sv.fk_checks


def quiet(f, *a, **k):
    """(result, stdout, stderr)"""
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        r = f(*a, **k)
    return r, o.getvalue(), e.getvalue()


def run(case, ev):
    live, want = case["live"], case["want"]
    sv = model.server(live, case["style"])
    cmds = list(case["cmds"])
    if case["warn"]:
        cmds.insert(0, "CREATE TABLE `wq9` (`id` INT NOT NULL, `wc9` INT NOT NULL, PRIMARY KEY (`id`));")
    faults = case["faults"]
    text = "\n".join(cmds)
    source = text
    if case["how"] == "list":
        source = cmds
    elif case["how"] == "dir":
        d = os.path.join(ROOT, "d")
        os.mkdir(d)
        for i, c in enumerate(cmds):
            with open(os.path.join(d, "f%02d.sql" % i), "w", encoding="utf-8", newline="") as f:
                f.write(c)
        source = d
    try:
        check_all(case, ev, sv, live, want, faults, source, text)
    finally:
        if case["how"] == "dir":
            shutil.rmtree(os.path.join(ROOT, "d"), ignore_errors=True)


def check_all(case, ev, sv, live, want, faults, source, text):
    errors = list(FileDatabase(source).errors)
    if not faults and errors:
        raise Violation("valid files are reported as broken: %r\n%s" % (errors[:3], text))
    if faults and not errors:
        raise Violation("broken files (%r) are read without an error\n%s" % (faults, text))
    for what, needle in faults:
        ev.label("fault " + what)
        # an unclosed quote, comment or parenthesis may swallow what follows
        if needle and not any("closed" in e.lower() or "(`id" in e for e in errors) and not any(needle in e for e in errors) and all(f[1] for f in faults):
            raise Violation("no report about %s: %r\n%s" % (needle, errors, text))
    (out, ok), printed, _ = quiet(commands.execute, "check", {"sql_files": source}, print_results=case["print"])
    if ok is not (not faults):
        raise Violation("check returns %r for %r" % (ok, faults))
    for e in errors:
        if e not in out or (case["print"] and e not in printed):
            raise Violation("check does not report %r, but %r / %r" % (e, out, printed))
    if not errors and out:
        raise Violation("check reports %r for valid files" % out)
    try:
        quiet(mygrate("check", {"version": False, "sql_files": source}).execute)
        code = None
    except SystemExit as e:
        code = e.code
    if bool(code) != bool(faults):
        raise Violation("check ends with exit code %r for the faults %r" % (code, faults))
    warned = case["warn"] and not faults
    if warned:
        ev.label("warnings only")
        ev.nontrivial()
        if case["print"] and "wc9" not in printed:
            raise Violation("the warning about wc9 is not shown: %r" % printed)
    stop = bool(faults) or case["unreadable"] is not None
    if faults and model.compare(model.server_as_model(sv), want):
        ev.nontrivial()
    before = state(sv)

    def opts(conn, force):
        o = {"sql_files": source}
        if case["unreadable"]:
            o["driver"] = Unreadable(connection=conn)
            o["driver"].odd = case["unreadable"]
            ev.label("unreadable live table")
        elif case["driver"]:
            o["driver"] = PyMySQL(connection=conn)
        else:
            o["connection"] = conn
        if force:
            o["force"] = True
        elif case["noforce"] != "no":
            o["force"] = {"False": False, "None": None, "0": 0}[case["noforce"]]
        return o

    if stop:
        for command in ("plan", "apply"):
            conn = sim.Connection(sv)
            (out, ok), printed, err = quiet(commands.execute, command, opts(conn, False), print_results=case["print"])
            if list(out):
                raise Violation("%s gives statements in spite of errors %r:\n  %s" % (command, errors[:3], "\n  ".join(out)))
            if conn.writes:
                raise Violation("%s sends statements in spite of errors %r:\n  %s" % (command, errors[:3], "\n  ".join(conn.writes)))
            if state(sv) != before:
                raise Violation("%s changes the database in spite of errors %r" % (command, errors[:3]))
            for e in errors:
                if e not in printed + err:
                    raise Violation("%s stops, but does not show %r" % (command, e))
        ev.label("stopped")
        if case["plain"] is not None and case["unreadable"] is None and not case["warn"]:
            # only unknown commands: forced, the plan is the one of everything else
            (a, _), _, _ = quiet(commands.execute, "plan", opts(sim.Connection(sv), True), print_results=False)
            (b, _), _, _ = quiet(commands.execute, "plan", {"connection": sim.Connection(sv), "sql_files": "\n".join(case["plain"])}, print_results=False)
            ev.label("forced")
            # (in one text, an unknown command can hide what follows)
            if case["how"] != "text" and sorted(a) != sorted(b):
                raise Violation("forced, the plan is\n  %s\nwithout the unknown commands it is\n  %s" % ("\n  ".join(a), "\n  ".join(b)))
            conn = sim.Connection(sv)
            (c, _), _, _ = quiet(commands.execute, "apply", opts(conn, True), print_results=False)
            if conn.writes != list(a):
                raise Violation("forced apply sends\n  %s\nthe forced plan is\n  %s" % ("\n  ".join(conn.writes), "\n  ".join(a)))
        return
    ev.label("valid")
    sql = [x for x in model.compare(model.server_as_model(sv), want, was=live)]
    (p, ok), _, err = quiet(commands.execute, "plan", opts(sim.Connection(sv), False), print_results=False)
    if (sql or case["warn"]) and not list(p):
        raise Violation("there are no errors and %r, but no plan: %s" % (sql, err))
    if state(sv) != before:
        raise Violation("plan changes the database")
    conn = sim.Connection(sv)
    quiet(commands.execute, "apply", opts(conn, False), print_results=case["print"])
    if case["warn"]:
        if "wq9" not in sv.tables:
            raise Violation("apply did not go ahead in spite of warnings only")
        del sv.tables["wq9"]
    after = model.compare(model.server_as_model(sv), want, old=live, was=live)
    if after:
        raise Violation("after apply: %s\n  %s" % ("; ".join(after[:4]), "\n  ".join(conn.writes)))
