"""P20: configuration and credentials are found where documented."""
import contextlib
import io
import json
import os
import runpy
import shutil
import sys
import tempfile
import boot
import sim
from boot import Skip, Violation
import pymysql
import pymysql.cursors

CALLS = []
SERVER = [None]


def connect(*args, **kw):
    CALLS.append((args, kw))
    return sim.Connection(SERVER[0])


# before the code under test is loaded, so that every way of importing it is covered
for _n in ("connect", "Connect", "Connection"):
    setattr(pymysql, _n, connect)
if "pymysql.connections" in sys.modules:
    sys.modules["pymysql.connections"].Connection = connect

from mygrations.core import commands  # noqa: E402
from mygrations.drivers.pymysql.pymysql import PyMySQL  # noqa: E402
from mygrations.mygrate import mygrate  # noqa: E402

PROPERTY = "P20"
RULE = "the configuration is not simply in the current directory, or a path or key in it is unusual, or something is missing"
ASSUMPTIONS = ["pymysql.connect is replaced by a recorder with lib/sim.py behind it", "no configuration files lie in the temporary directory itself or above it"]
QUICK, THOROUGH = 900, 40000
ROOT = None
NAMES = ["mygrate.conf", "mygrate.conf", "my conf.txt", "x.cfg", "\u00e9.conf", ".mygrate"]
SUBS = ["app", "b b", "\u00e9t\u00e9", "k=v", "c:d", "deep", "x", "db", "cfg", "#1", "'q'"]
DBS = ["db", "db/", "./db", "../db", "sub/db", "sub/../db", ".", "cfg/../sub/db", "my db", "@db", "@sub/db", "../../db", "db#1"]
ENVS = [".env", "./.env", "../.env", "cfg/.env", "cfg/../.env", "@.env", "@cfg/.env", "my env", "../cfg/.env", "db/.env", "env#2"]
KEYS = ["hostname_key", "username_key", "password_key", "database_key"]
ARG = {"hostname_key": ("host",), "username_key": ("user",), "password_key": ("password", "passwd"), "database_key": ("database", "db")}
ENTRIES = ["DB_HOSTNAME", "DB_USERNAME", "DB_PASSWORD", "DB_DATABASE", "host", "user", "password", "database", "db.host", "hostname_key", "two words", "X", "username_key", "\u00e9"]
VALUES = ["localhost", "root", "", "p'w\"d", "a#b", "s;", " lead", "trail ", "x=y", "127.0.0.1", "3306", "\u6f22", "DB_HOSTNAME", "%s", "${HOME}", "a:b", "//c", "!@$^&*()", "host", "user"]


def setup():
    global ROOT
    ROOT = os.path.realpath(tempfile.mkdtemp(prefix="p20_"))
    d = os.path.dirname(ROOT)
    while True:
        for n in NAMES:
            if os.path.exists(os.path.join(d, n)) or os.path.exists(os.path.join(d, "conf", n)):
                raise RuntimeError("there is a %s in %s" % (n, d))
        if d == "/":
            break
        d = os.path.dirname(d)


def teardown():
    os.chdir("/")
    shutil.rmtree(ROOT, ignore_errors=True)


def gen(g, tier):
    path = [g.pick(SUBS) for _ in range(g.weighted([(2, 0), (3, 1), (3, 2), (2, 3), (1, 5)]))]
    name = g.pick(NAMES)
    where = g.weighted([(8, ""), (1, "./"), (1, "conf/"), (1, "../"), (4, "abs"), (1, "absconf")])
    confs = []
    for level in range(len(path) + 1):
        if not g.chance(60 if level == len(path) else 45):
            if g.chance(10):
                confs.append({"level": level, "sub": "", "dir": True})
            continue
        names = [g.pick(ENTRIES) for _ in range(4)]
        c = {"level": level, "sub": g.weighted([(6, ""), (1, "conf/")]) if where in ("", "./", "../", "abs") else "conf/", "set": {k: e for k, e in zip(KEYS, names)}, "json": g.chance(15), "style": g.int(0, 50)}
        c["set"]["files_directory"] = g.pick(DBS[:2] + DBS)
        c["set"]["env_file"] = g.pick(ENVS[:1] + ENVS)
        if g.chance(12):
            del c["set"][g.pick(list(c["set"]))]
        confs.append(c)
    envs = {}
    for e in ENTRIES:
        if not g.chance(8):
            envs[e] = g.pick(VALUES)
    return {"path": path, "name": name, "where": where, "at": g.int(0, len(path)), "confs": confs, "env": envs, "without": [g.pick(ENVS) for _ in range(g.weighted([(7, 0), (1, 1), (1, 3)]))], "nodb": g.chance(10),
            "cmd": g.weighted([(6, "plan"), (4, "apply"), (3, "check"), (2, "plan_export"), (1, "version")]), "via": g.weighted([(4, "execute"), (2, "mygrate"), (2, "script")]), "style": g.int(0, 50), "envjson": g.chance(15),
            "given": g.weighted([(8, None), (1, "files"), (1, "connection"), (1, "driver")]), "noconfig": g.weighted([(14, None), (1, "absent"), (1, "empty")])}


def quoted(v, n):
    style = n % 4
    if style == 0 and not any(c in v for c in "'\"#") and v == v.strip():
        return v
    q = "'\""[n % 2]
    return q + v.replace(q, "\\" + q) + q + (";" if n % 5 == 0 else "")


def settings(d, style, as_json):
    if as_json:
        return json.dumps(d, indent=style % 3)
    out = ["# a comment = 1"] if style % 2 else []
    for i, (k, v) in enumerate(d.items()):
        out.append(k + ["=", " = ", ": ", ":"][(style + i) % 4] + quoted(v, style + i) + (" # note" if (style + i) % 3 == 0 else ""))
        if (style + i) % 7 == 0:
            out.append("")
    return "\n".join(out) + "\n"


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def build(case, base):
    """lays out the tree; returns (cwd, {config path: settings}, table of a schema directory, environment of a file)"""
    levels = [base]
    for p in case["path"]:
        levels.append(os.path.join(levels[-1], p))
    os.makedirs(levels[-1], exist_ok=True)
    confs = {}
    for c in case["confs"]:
        f = os.path.normpath(os.path.join(levels[c["level"]], c["sub"] if not c.get("dir") else "", case["name"]))
        if os.path.exists(f):
            continue
        if c.get("dir"):
            os.makedirs(f)
            continue
        s = {k: (os.path.join(base, "elsewhere", v[1:]) if v[0] == "@" else v) for k, v in c["set"].items()}
        # the text is written at once, so that nothing else takes its place
        write(f, settings(s, c["style"], c["json"]))
        confs[f] = s
    dirs, envs = {}, {}
    homes = sorted(set(levels) | {os.path.dirname(f) for f in confs} | {os.path.join(base, "elsewhere"), os.path.dirname(base)})
    for h in homes:
        for d in DBS:
            d = os.path.normpath(os.path.join(h, d.lstrip("@")))
            if not d.startswith(os.path.dirname(base) + "/") or d in dirs or os.path.isfile(d) or case["nodb"]:
                continue
            n = "t_%d" % len(dirs)
            sql = "CREATE TABLE `%s` (`id` INT NOT NULL%s, PRIMARY KEY (`id`)%s);\n" % (n, "", ", KEY `k` (`gone`)" if case["cmd"] == "check" else "")
            try:
                write(os.path.join(d, "table.sql"), sql)
            except (FileExistsError, NotADirectoryError):
                continue
            dirs[d] = n
        for e in ENVS:
            if e in case["without"]:
                continue
            e = os.path.normpath(os.path.join(h, e.lstrip("@")))
            if not e.startswith(os.path.dirname(base) + "/") or os.path.exists(e):
                continue
            # every file has values of its own
            vals = {k: v + ("" if i % 3 == 0 else "_%d" % len(envs)) for i, (k, v) in enumerate(case["env"].items())}
            try:
                write(e, settings(vals, case["style"] + len(envs), case["envjson"]))
            except (FileExistsError, NotADirectoryError):
                continue
            envs[e] = vals
    return levels, confs, dirs, envs


def expected(case, levels, confs, dirs, envs, base):
    """(name of the configuration option, table it reads or None, arguments of the connection or None if none, error?)"""
    w, name = case["where"], case["name"]
    if w in ("abs", "absconf"):
        opt = os.path.join(levels[case["at"]], "conf" if w == "absconf" else "", name)
        found = opt if os.path.normpath(opt) in confs else None
    else:
        opt = w + name
        found = None
        d = levels[-1]
        while found is None:
            f = os.path.normpath(os.path.join(d, opt))
            if f in confs:
                found = f
            if d == "/":
                break
            d = os.path.dirname(d)
    if case["via"] == "script" and case["noconfig"]:
        opt = "mygrate.conf"
    return opt, found and os.path.normpath(found)


def run(case, ev):
    base = os.path.join(ROOT, "w", "top")
    shutil.rmtree(os.path.join(ROOT, "w"), ignore_errors=True)
    try:
        levels, confs, dirs, envs = build(case, base)
        os.chdir(levels[-1])
        attempt(case, ev, base, levels, confs, dirs, envs)
    finally:
        os.chdir("/")
        shutil.rmtree(os.path.join(ROOT, "w"), ignore_errors=True)


def attempt(case, ev, base, levels, confs, dirs, envs):
    if case["via"] == "script" and case["noconfig"]:
        case = dict(case, name=case["name"] if case["where"] == "" else case["name"])
        # the name the command line starts from
        if case["name"] != "mygrate.conf" or case["where"] != "":
            case["noconfig"] = None
    opt, found = expected(case, levels, confs, dirs, envs, base)
    cmd, given = case["cmd"], case["given"] if case["via"] == "execute" else None
    if found and not os.path.isfile(found):
        raise Skip("overwritten")
    # what the documentation says
    need_files = cmd in ("check", "plan", "apply", "plan_export")
    need_driver = cmd in ("plan", "apply", "plan_export")
    load = need_files and given != "files" or need_driver and given not in ("connection", "driver")
    err, table, args = None, None, None
    if load:
        if case["noconfig"] and case["via"] != "script":
            err = "no configuration given"
        elif not found:
            err = "no configuration file"
        else:
            s = confs[found]
            home = os.path.dirname(found)
            if "files_directory" not in s or "env_file" not in s:
                err = "a path is missing"
            else:
                d = os.path.normpath(os.path.join(home, s["files_directory"]))
                table = dirs.get(d) if given != "files" else None
                if given != "files" and table is None:
                    # reported like any other text that isn't SQL (P16)
                    if os.path.exists(d):
                        raise Skip("a directory without files")
                    err = "files"
                elif need_driver and given not in ("connection", "driver"):
                    e = os.path.normpath(os.path.join(home, s["env_file"]))
                    if any(k not in s for k in KEYS):
                        err = "a key is missing"
                    elif e not in envs:
                        if os.path.exists(e):
                            raise Skip("something else in place of the environment file")
                        err = "no environment file"
                    elif any(s[k] not in envs[e] for k in KEYS):
                        err = "an entry is missing"
                    else:
                        args = {k: envs[e][s[k]] for k in KEYS}
    if given == "files":
        table = "t_given"
    ev.label("%s: %s" % (cmd, err or "found"))
    if err or (found and (os.path.dirname(found) != levels[-1] or any(x not in ("db", ".env") for x in (confs[found].get("files_directory"), confs[found].get("env_file"))))):
        ev.nontrivial()
    options = {} if case["noconfig"] == "absent" else {"config": "" if case["noconfig"] == "empty" else opt}
    server = SERVER[0] = sim.Server("8.0")
    server.execute("CREATE TABLE `live` (`id` int NOT NULL, PRIMARY KEY (`id`))")
    del CALLS[:]
    if given == "files":
        options["sql_files"] = "CREATE TABLE `t_given` (`id` INT NOT NULL, PRIMARY KEY (`id`)%s);" % (", KEY `k` (`gone`)" if cmd == "check" else "")
    elif given:
        c = sim.Connection(server)
        options[given] = c if given == "connection" else PyMySQL(connection=c)
    out, errs = io.StringIO(), io.StringIO()
    result = failure = code = None
    argv = sys.argv
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(errs):
        try:
            if case["via"] == "execute":
                result = commands.execute(cmd, options, print_results=False)
            elif case["via"] == "mygrate":
                mygrate(cmd, dict(options, force=False, version=False)).execute()
            else:
                sys.argv = ["mygrate.py", cmd] + ([] if case["noconfig"] else ["--config", opt])
                runpy.run_path(os.path.join(boot.REPO, "mygrate.py"), run_name="__main__")
        except SystemExit as e:
            code = e.code
        except Exception as e:
            failure = e
        finally:
            sys.argv = argv
    text = out.getvalue() + "\n" + (repr(result[0]) if result else "")
    say = "%s from %s with configuration %r (%s)" % (cmd, os.path.relpath(levels[-1], base), opt, os.path.relpath(found, base) if found else "nowhere")
    if err == "files":
        if failure is None and (code == 0 or (result and result[1])) and not errs.getvalue() and cmd != "plan_export":
            raise Violation("%s: the schema directory is missing, and nothing is said" % say)
        if [w for _, kw in CALLS for w in kw] and cmd == "check":
            raise Violation("%s: a connection is opened for a check" % say)
        return
    if err:
        if failure is None:
            raise Violation("%s: %s, but it went ahead: %r %r %s" % (say, err, result, code, text))
        if CALLS:
            raise Violation("%s: %s, but a connection was opened with %r" % (say, err, CALLS))
        return
    if failure is not None:
        raise Violation("%s failed: %s: %s" % (say, type(failure).__name__, failure))
    if args is None:
        if CALLS:
            raise Violation("%s: a connection was opened" % say)
    else:
        if len(CALLS) != 1:
            raise Violation("%s: %d connections were opened" % (say, len(CALLS)))
        pos, kw = CALLS[0]
        got = {k: next((kw[n] for n in ARG[k] if n in kw), None) for k in KEYS}
        if got != args:
            raise Violation("%s: connected with %r instead of %r" % (say, got, args))
        if kw.get("autocommit"):
            raise Violation("%s: connected with autocommit" % say)
    if cmd == "version":
        return
    if cmd == "plan_export":
        want = {"live"}
    else:
        want = {table, "live"} if cmd != "check" else {table}
    seen = {t for t in list(dirs.values()) + ["t_given", "live"] if "`%s`" % t in text or " %s " % t in text or "'%s'" % t in text or "%s:" % t in text}
    if seen != want:
        raise Violation("%s: it used %r instead of %r\n%s" % (say, sorted(seen), sorted(want), text))
    if cmd == "apply":
        if set(server.tables) != {table}:
            raise Violation("%s: the database ends up with %r instead of %r" % (say, sorted(server.tables), table))
    if case["via"] != "execute" and code != (1 if cmd == "check" else 0):
        raise Violation("%s: exit status %r" % (say, code))
