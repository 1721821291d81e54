"""P12: how the SQL is split over strings, files and directories does not matter."""
import io
import os
import shutil
import tempfile
import extract
import model
import render
import texts
from boot import Violation

from mygrations.formats.mysql.file_reader.database import Database as FileDatabase
from mygrations.formats.mysql.file_reader.reader import Reader

PROPERTY = "P12"
RULE = "there are at least two commands and they are passed in more than one piece, or as a file or directory"
QUICK, THOROUGH = 500, 9000
ROOT = None
NAMES = ["a", "users", "b c", "x[1]", "é", "z*", "tables.v2", "A", "it's", "%s", "CREATE TABLE"]


def setup():
    global ROOT
    ROOT = tempfile.mkdtemp(prefix="p12_")


def teardown():
    shutil.rmtree(ROOT, ignore_errors=True)


def gen(g, tier):
    s = model.gen_schema(g, {"odd": True, "maxtables": 3, "mintables": 1, "track": True, "maxcols": 3})
    model.gen_row_pair(g, {"tables": []}, s, True)
    errors = []
    if g.chance(40):
        errors = g.some(["fk", "index", "rowtable", "rowcol", "default", "ai", "count", "noid"], 1, 3)
    pieces = []
    for _ in range(g.int(1, 4)):
        kind = g.pick(["string", "string", "file", "dir", "dir"])
        if kind == "dir":
            pieces.append(["dir", g.pick(NAMES), g.some(NAMES, 0, 3), g.pick(["", "/", "//"]), g.some(["notes.txt", "old.sql.bak", "more", "x.SQLX", "sql"], 0, 3), g.chance(20)])
        elif kind == "file":
            pieces.append(["file", g.pick(NAMES), g.pick([".sql", "", ".txt"]), g.chance(20)])
        else:
            pieces.append(["string"])
    return {"schema": s, "errors": errors, "pieces": pieces, "order": g.int(0, 999), "deal": g.int(0, 999), "spell": g.int(0, 999), "twice": g.chance(12), "pad": g.pick([70000, 200000, 9000]) if g.chance(3) else 0}


EXTRA = {
    "fk": "CREATE TABLE `bad_fk` (`id` INT, KEY `k` (`id`), CONSTRAINT `bad_link` FOREIGN KEY (`id`) REFERENCES `nowhere` (`id`));",
    "index": "CREATE TABLE `bad_index` (`id` INT, KEY `k` (`id`,`gone`));",
    "rowtable": "INSERT INTO `no_such_table` (`id`) VALUES (1);",
    "rowcol": "CREATE TABLE `bad_rows` (`id` INT, PRIMARY KEY (`id`)); INSERT INTO `bad_rows` (`id`,`gone`) VALUES (1,'x');",
    "default": "CREATE TABLE `bad_default` (`id` INT, x TEXT NOT NULL DEFAULT 'x');",
    "ai": "CREATE TABLE `bad_ai` (`id` INT NOT NULL AUTO_INCREMENT, `b` INT NOT NULL AUTO_INCREMENT, PRIMARY KEY (`id`));",
    "count": "CREATE TABLE `bad_count` (`id` INT, b INT, PRIMARY KEY (`id`)); INSERT INTO `bad_count` (`id`,`b`) VALUES (1,2,3);",
    "noid": "CREATE TABLE `bad_id` (`id` INT, b INT, PRIMARY KEY (`id`)); INSERT INTO `bad_id` (`b`) VALUES (1);",
}


def write(path, text):
    with open(path, "w", encoding="utf-8", newline="") as fp:
        fp.write(text)


def picture(db):
    tabs = {}
    for t in db.tables.values():
        x = extract.table(t)
        x["rows"] = extract.rows(t)
        tabs[t.name] = x
    return tabs, sorted(str(e) for e in db.errors), sorted(str(w) for w in db.warnings)


def reading(texts, base):
    """tables and row ids which readers find in open files and in text"""
    tabs, ids = {}, {}
    for i, x in enumerate(texts):
        rd = Reader()
        if i % 3 == 0:
            rd.parse(io.StringIO(x))
        elif i % 3 == 1 or not x:
            path = os.path.join(base, "open.txt")
            write(path, x)
            with open(path, encoding="utf-8") as fp:
                rd.parse(fp)
            os.unlink(path)
        else:
            rd.parse(x)
        for n, t in rd.tables.items():
            tabs[n] = extract.table(t)
            tabs[n]["rows"] = None
        for n, cmds in rd.rows.items():
            for c in cmds:
                at = c.columns.index("id") if "id" in c.columns else None
                ids.setdefault(n, []).extend(r[at] for r in c.raw_rows if at is not None)
    return tabs, {n: sorted(x) for n, x in ids.items()}


def run(case, ev):
    # line ends in files are not looked at: they are translated
    creates, inserts = render.commands(clean(case["schema"]), case["spell"], 2)
    cmds = creates + inserts
    cmds = [c.replace("\r\n", "\n") for c in cmds]
    for e in case["errors"]:
        cmds += [x + ";" for x in EXTRA[e].split(";") if x.strip()]
    if case.get("pad"):
        # a large file: by long values, and by a comment between the commands
        cmds.insert(0, "CREATE TABLE `long_ones` (`id` INT, `v` LONGTEXT, PRIMARY KEY (`id`));")
        n = 1 + case["pad"] // 9000
        for i in range(0, n, 2):
            cmds.insert(1 + i % len(cmds), "INSERT INTO `long_ones` (`id`,`v`) VALUES (%d,'%s'), (%d,'%s');" % (i, "long; --" * 500, i + 1, "it\\'s" * 600))
        cmds.append("-- %s\nINSERT INTO `long_ones` (`id`,`v`) VALUES (12345,'the end');" % ("remark " * (case["pad"] // 14)))
        ev.label("large")
    once = list(cmds)
    want = picture(FileDatabase("\n".join(once)))
    if bool(want[1]) != bool(case["errors"]):
        raise Violation("errors %r for\n%s" % (want[1][:3], "\n".join(once)))
    s = render.S(case["order"], 2)
    if case["order"]:
        s.r.shuffle(cmds)
    # where each command goes
    r = render.S(case["deal"], 2).r
    slots = []
    for i, p in enumerate(case["pieces"]):
        if p[0] == "dir":
            slots += [(i, f) for f in p[2]]
        else:
            slots.append((i, None))
    strings = []
    if not slots:
        slots = [(len(case["pieces"]), None)]
    text = {k: "" for k in slots}
    for c in cmds:
        k = r.choice(slots)
        text[k] += ("" if r.random() < 0.7 else "-- note; it's\n") + c + r.choice(["\n", "", "\n\n", "  "])
    base = tempfile.mkdtemp(prefix="case_", dir=ROOT)
    here = os.getcwd()
    try:
        os.chdir(base)
        for i, p in enumerate(case["pieces"]):
            d = os.path.join(base, "p%d" % i)
            if p[0] == "string":
                strings.append(text[(i, None)])
                continue
            os.mkdir(d)
            if p[0] == "file":
                path = os.path.join(d, p[1] + p[2])
                write(path, text[(i, None)])
                strings.append(os.path.relpath(path, base) if p[3] else path)
            else:
                path = os.path.join(d, p[1])
                os.mkdir(path)
                for f in p[2]:
                    write(os.path.join(path, f + ".sql"), text[(i, f)])
                for f in p[4]:
                    if f == "more":
                        os.mkdir(os.path.join(path, f))
                        write(os.path.join(path, f, "deep.sql"), "CREATE TABLE `from_below` (`id` INT);")
                    else:
                        write(os.path.join(path, f), "CREATE TABLE `from_elsewhere` (`id` INT);")
                strings.append((os.path.relpath(path, base) if p[5] else path) + p[3])
        if (len(case["pieces"]), None) in text:
            strings.append(text[(len(case["pieces"]), None)])
        if case.get("twice"):
            # the first piece once more: all of its commands are there twice
            again = [k for k in slots if k[0] == 0]
            strings.append(strings[0])
            want = picture(FileDatabase("\n".join(once) + "\n" + "\n".join(text[k] for k in again)))
            ev.label("the same piece twice")
        one = len(strings) == 1
        got = picture(FileDatabase(strings[0] if one else strings))
        readers = reading(text.values(), base) if not case.get("twice") else None
        listed = os.listdir(base)
    finally:
        os.chdir(here)
        shutil.rmtree(base, ignore_errors=True)
    if sorted(listed) != sorted("p%d" % i for i, p in enumerate(case["pieces"]) if p[0] != "string"):
        raise Violation("reading changed the files: %r" % listed)
    if len(cmds) > 1 and (len(strings) > 1 or case["pieces"][0][0] != "string"):
        ev.nontrivial()
    for p in case["pieces"]:
        ev.label(p[0])
    for e in case["errors"]:
        ev.label("error " + e)
    what = "\n---\n".join("%s: %s" % (case["pieces"][k[0]] if k[0] < len(case["pieces"]) else "string", v) for k, v in text.items())
    if got[0] != want[0]:
        for n in set(got[0]) | set(want[0]):
            if got[0].get(n) != want[0].get(n):
                raise Violation("table %s is %r, as one string it is %r\n%s" % (n, got[0].get(n), want[0].get(n), what))
    if readers:
        ev.label("open files")
        for n in want[0]:
            x = dict(want[0][n], rows=None)
            if readers[0].get(n) != x:
                raise Violation("table %s is %r from an open file, otherwise %r\n%s" % (n, readers[0].get(n), x, what))
            ids = sorted(want[0][n]["rows"] or {})
            if not case["errors"] and readers[1].get(n, []) != ids:
                raise Violation("rows of table %s are %r from an open file, otherwise %r\n%s" % (n, readers[1].get(n), ids, what))
    if got[1] != want[1]:
        raise Violation("errors are %r, as one string they are %r\n%s" % (got[1], want[1], what))
    if got[2] != want[2]:
        raise Violation("warnings are %r, as one string they are %r\n%s" % (got[2], want[2], what))


def clean(s):
    for t in s["tables"]:
        seen, rows = set(), []
        for r in t.get("rows") or []:
            r = {c: v.replace("\r", "") if v is not None else None for c, v in r.items()}
            if r["id"] and r["id"] not in seen:
                seen.add(r["id"])
                rows.append(r)
        if t.get("rows"):
            t["rows"] = rows
    return s
