"""Planning and applying with the code under test against the simulated server."""
import boot
import model
import sim
from boot import Violation

from mygrations.core import commands
from mygrations.formats.mysql.file_reader.database import Database as FileDatabase
from mygrations.formats.mysql.db_reader.database import Database as LiveDatabase
from mygrations.drivers.pymysql.pymysql import PyMySQL


def options(conn, sql, **kw):
    d = {"connection": conn, "sql_files": sql}
    d.update(kw)
    return d


def plan(conn, sql, **kw):
    """statements the plan command gives"""
    out, ok = commands.execute("plan", options(conn, sql, **kw), print_results=False)
    return list(out)


def apply(conn, sql, **kw):
    out, ok = commands.execute("apply", options(conn, sql, **kw), print_results=False)
    return list(out)


def files(sql):
    return FileDatabase(sql)


def live(server):
    return LiveDatabase(PyMySQL(connection=sim.Connection(server)))


def run(server, stmts):
    """execute in order; Violation when the server refuses one"""
    for i, s in enumerate(stmts):
        try:
            server.execute(s)
        except sim.SqlError as e:
            raise Violation("statement %d of the plan is refused: %s\n  %s\nplan:\n  %s" % (i + 1, e, s, "\n  ".join(stmts)))
    server.commit()


def need_valid(sql):
    """declared files without errors, else Violation (the generators only make valid ones)"""
    errors = list(files(sql).errors)
    if errors:
        raise Violation("valid files are reported as broken: %s\n%s" % (errors[:3], sql))


def split(stmts):
    """statements without the switching of foreign key checks around them"""
    out = []
    for s in stmts:
        v = sim.parse(s)
        if v[0] != "checks":
            out.append((s, v))
    return out
