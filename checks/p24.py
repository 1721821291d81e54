"""P24: the command line does what the program interface does."""
import contextlib
import copy
import io
import os
import re
import runpy
import shutil
import sys
import tempfile
import boot
import model
import render
import sim
import texts
from boot import Violation
import pymysql
import pymysql.cursors

CALLS = []
CONN = [None]


def connect(*args, **kw):
    CALLS.append((args, kw))
    return CONN[0]


# before the code under test is loaded, so that every way of importing it is covered
for _n in ("connect", "Connect", "Connection"):
    setattr(pymysql, _n, connect)
if "pymysql.connections" in sys.modules:
    sys.modules["pymysql.connections"].Connection = connect

from mygrations.core import commands  # noqa: E402

PROPERTY = "P24"
RULE = "something is planned, applied, exported or reported"
ASSUMPTIONS = ["pymysql.connect is replaced by lib/sim.py behind a recording connection", "the text that plan prints is split like the mysql client does: at semicolons outside of quotes and comments"]
QUICK, THOROUGH = 400, 12000
ROOT = None
FAULTS = ["CREATE TABLE `fq9` (`id` INT NOT NULL, PRIMARY KEY (`id`), KEY `kq9` (`gone9`));", "INSERT INTO `gone9` (`id`) VALUES (1);", "CREATE TABLE `fq9` (`id` INT NOT NULL, `x` TEXT NOT NULL DEFAULT 'x', PRIMARY KEY (`id`));", "garbage;", "CREATE TABLE `fq9` (`id` FOO);",
          "CREATE TABLE `fq9` (`id` INT NOT NULL, PRIMARY KEY (`id`), CONSTRAINT `cq9` FOREIGN KEY (`id`) REFERENCES `gone9` (`id`));"]
BREAKS = ["", " \n", "\n\n", "\r\n", "\t\n ", ";\n", "\n-- ", " */\n"]
WARNING = "CREATE TABLE `wq9` (`id` INT NOT NULL, `wc9` INT NOT NULL, PRIMARY KEY (`id`));"


def setup():
    global ROOT
    ROOT = os.path.realpath(tempfile.mkdtemp(prefix="p24_"))


def teardown():
    os.chdir("/")
    shutil.rmtree(ROOT, ignore_errors=True)


def gen(g, tier):
    opt = {"odd": g.chance(30), "track": 1, "maxtables": 3, "mintables": g.pick([0, 1, 1]), "maxcols": 4}
    a, b = model.gen_pair(g, opt)
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    if g.chance(60):
        model.gen_row_pair(g, a, b, odd=g.chance(60))
    cmd = g.weighted([(5, "plan"), (4, "apply"), (3, "check"), (2, "plan_export"), (1, "version"), (1, None), (1, "bad")])
    if cmd == "bad":
        cmd = g.pick(["aply", "execute", "PLAN", "plans", "export", ""])
    flags = []
    if g.chance(25):
        flags.append(["-f"])
    if g.chance(6):
        flags.append(["-v"])
    if g.chance(4):
        flags.append([g.pick(["--nope", "-x", "extra", "--config", "--forced"])])
    if g.chance(40):
        flags.append(g.pick([["--config", "mygrate.conf"], ["--config=mygrate.conf"], ["--config", "@mygrate.conf"], ["--config", "other.conf"], ["--config=sub/third.conf"]]))
    at = g.int(0, len(flags))
    return {"live": a, "want": b, "style": g.pick(["8.0", "5.7"]), "spell": g.int(0, 40), "cmd": cmd, "flags": flags, "at": at, "faults": [g.pick(FAULTS) for _ in range(g.weighted([(3, 0), (2, 1), (1, 2)]))] if g.chance(45) else [],
            "notes": [g.pick(BREAKS).join(texts.text(g) for _ in range(g.int(1, 2))) for _ in range(g.int(1, 3))] if g.chance(25) else None, "warn": g.chance(25), "again": g.chance(30)}


def script(text):
    """the statements in a text, as the mysql client finds them"""
    out, i, start = [], 0, 0
    while i < len(text):
        c = text[i]
        if c in "'\"`":
            i += 1
            while i < len(text) and text[i] != c:
                i += 2 if text[i] == "\\" and c != "`" else 1
        elif text.startswith("-- ", i) or c == "#":
            i = (text + "\n").index("\n", i)
        elif text.startswith("/*", i):
            i = text.find("*/", i) + 1 or len(text)
        elif c == ";":
            out.append(text[start:i + 1].strip())
            start = i + 1
        i += 1
    if text[start:].strip():
        out.append(text[start:].strip())
    return out


def state(sv):
    return [sv.show(t) for t in sv.tables.values()], {n: t.rows for n, t in sv.tables.items()}, sv.fk_checks


def call(argv):
    """(exit status, stdout, stderr) of the command line program"""
    out, err = io.StringIO(), io.StringIO()
    old, code = sys.argv, "none"
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            sys.argv = ["mygrate.py"] + argv
            runpy.run_path(os.path.join(boot.REPO, "mygrate.py"), run_name="__main__")
        except SystemExit as e:
            code = e.code
        finally:
            sys.argv = old
    return code, out.getvalue(), err.getvalue()


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)


def run(case, ev):
    base = os.path.join(ROOT, "w")
    shutil.rmtree(base, ignore_errors=True)
    cr, ins = render.commands(case["want"], case["spell"], 1)
    if case["notes"]:
        cr = cr + ["CREATE TABLE `notes9` (`id` INT NOT NULL, `v` LONGTEXT, PRIMARY KEY (`id`));"]
        ins = ins + [render.insert_sql(render.S(case["spell"], 1), "notes9", ["id", "v"], [[str(i + 1), v] for i, v in enumerate(case["notes"])])]
    cmds = cr + ins + ([WARNING] if case["warn"] else []) + list(dict.fromkeys(case["faults"]))
    # a table of the declared schema may be called like a broken one
    files = os.path.join(base, "db")
    os.makedirs(files)
    for i, c in enumerate(cmds):
        write(os.path.join(files, "f%02d.sql" % i), c)
    write(os.path.join(base, ".env"), "DB_HOSTNAME=h\nDB_USERNAME=u\nDB_PASSWORD=p\nDB_DATABASE=d\n")
    conf = "hostname_key=DB_HOSTNAME\nusername_key=DB_USERNAME\npassword_key=DB_PASSWORD\ndatabase_key=DB_DATABASE\n"
    write(os.path.join(base, "mygrate.conf"), conf + "env_file=.env\nfiles_directory=db\n")
    write(os.path.join(base, "other.conf"), conf + "env_file=.env\nfiles_directory=db\n")
    write(os.path.join(base, "sub", "third.conf"), conf + "env_file=../.env\nfiles_directory=../db\n")
    try:
        os.chdir(base)
        attempt(case, ev, base, files)
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)


def attempt(case, ev, base, files):
    sv = model.server(case["live"], case["style"])
    flat = [[x.replace("@", base + "/") for x in f] for f in case["flags"]]
    argv = [x for f in flat[:case["at"]] for x in f] + ([case["cmd"]] if case["cmd"] is not None else []) + [x for f in flat[case["at"]:] for x in f]
    force = ["-f"] in flat
    conn = CONN[0] = sim.Connection(sv)
    before = copy.deepcopy(state(sv))
    ref = sv.clone()
    del CALLS[:]
    if case["cmd"] == "apply" and force and case["faults"]:
        argv = ["plan" if x == "apply" else x for x in argv]  # no server takes what is broken
        case = dict(case, cmd="plan")
    code, out, err = call(argv)
    # the directory can be written in several ways
    out = re.sub(r"/\S*/db/(?=f\d\d\.sql)", "db/", out)
    say = "mygrate.py %s" % " ".join(argv)
    known = [None, "version", "apply", "check", "plan", "plan_export"]
    # "--config" swallows what follows it; "extra" is one word too many, or the (unknown) command
    bad = [f for f in flat if f[0] in ("--nope", "-x", "extra", "--config", "--forced") and len(f) == 1]
    if case["cmd"] not in known or bad:
        ev.label("refused")
        if bad == [["--config"]]:
            return
        if code != 2:
            raise Violation("%s: unknown words are not refused, but end with status %r\n%s" % (say, code, out))
        if CALLS or conn.log:
            raise Violation("%s: it connects: %r %r" % (say, CALLS, conn.log))
        if case["cmd"] not in known:
            try:
                got = commands.execute(case["cmd"], {"sql_files": files, "connection": conn}, print_results=False)
            except ValueError:
                got = None
            if got is not None or conn.log or commands.allowed(case["cmd"]):
                raise Violation("the program interface takes the command %r: %r %r" % (case["cmd"], got, conn.log))
        return
    if case["cmd"] and not commands.allowed(case["cmd"]):
        raise Violation("the program interface says it doesn't allow %s" % case["cmd"])
    cmd = "version" if case["cmd"] is None or ["-v"] in flat else case["cmd"]
    ev.label(cmd + (" forced" if force else "") + (" with errors" if case["faults"] else ""))
    options = {"sql_files": files, "force": force}
    rconn = sim.Connection(ref)
    if cmd != "version":
        options["connection"] = rconn
    with contextlib.redirect_stderr(io.StringIO()):
        lines, ok = commands.execute(cmd, options, print_results=False)
    lines = [re.sub(r"/\S*/db/(?=f\d\d\.sql)", "db/", str(x)) for x in lines]
    if lines and cmd != "version":
        ev.nontrivial()
    if code != (0 if ok else 1):
        raise Violation("%s: ends with status %r, the command returns %r" % (say, code, ok))
    if cmd == "check" and bool(ok) != (not case["faults"]):
        raise Violation("%s: %r for the faults %r" % (say, ok, case["faults"]))
    at = 0
    for x in lines:
        at = out.find(x, at)
        if at < 0:
            raise Violation("%s: this is not printed in its place: %s\n%s" % (say, x, out))
        at += len(x)
    if case["warn"] and cmd == "check" and "wc9" not in out:
        raise Violation("%s: the warning is not printed: %s" % (say, out))
    if [x for x in conn.writes] != [x for x in rconn.writes]:
        raise Violation("%s: sends\n  %s\nthe command sends\n  %s" % (say, "\n  ".join(conn.writes), "\n  ".join(rconn.writes)))
    if cmd in ("version", "check") and (CALLS or conn.log):
        raise Violation("%s: it connects: %r %r" % (say, CALLS, conn.log))
    if cmd in ("plan", "apply", "plan_export") and (not case["faults"] or force) and len(CALLS) != 1:
        raise Violation("%s: %d connections" % (say, len(CALLS)))
    if cmd == "version" and "mygrations v" not in out:
        raise Violation("%s: no version in %r" % (say, out))
    if cmd != "apply" and state(sv) != before:
        raise Violation("%s: the database has changed" % say)
    if case["faults"] and not force and cmd in ("plan", "apply"):
        if conn.writes or lines:
            raise Violation("%s: statements in spite of errors:\n%s" % (say, "\n".join(conn.writes + lines)))
        if not err.strip():
            raise Violation("%s: stops without a word" % say)
        return
    if case["faults"]:
        return
    if cmd == "plan":
        # the printed plan is a script
        if script(out) != lines:
            raise Violation("%s: the client finds these statements in what is printed:\n  %s\nthe plan is:\n  %s" % (say, "\n  ".join(script(out)), "\n  ".join(lines)))
        one, two = sv.clone(), sv.clone()
        try:
            for x in script(out):
                one.execute(x)
            one.commit()
        except sim.SqlError as e:
            raise Violation("%s: the server refuses the printed plan: %s\n%s" % (say, e, out))
        with contextlib.redirect_stdout(io.StringIO()):
            commands.execute("apply", {"sql_files": files, "connection": sim.Connection(two)}, print_results=False)
        if state(one) != state(two):
            raise Violation("%s: the printed plan leads elsewhere than applying\n%s" % (say, out))
    if cmd == "apply":
        if state(sv) != state(ref):
            raise Violation("%s: the database ends up different" % say)
        if case["again"]:
            conn2 = CONN[0] = sim.Connection(sv)
            code, out2, _ = call(argv)
            ev.label("applied twice")
            if code != 0 or conn2.writes:
                raise Violation("%s once more: status %r, sends %r" % (say, code, conn2.writes))
