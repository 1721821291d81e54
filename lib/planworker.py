"""A process with a hash seed of its own which plans what it is told, line by line."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: F401,E402
import json  # noqa: E402
import contextlib  # noqa: E402
import model  # noqa: E402
import plan  # noqa: E402
import sim  # noqa: E402


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        d = json.loads(line)
        try:
            with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
                res = plan.plan(sim.Connection(model.server(d["live"], d["style"])), d["sql"])
        except Exception as e:
            res = "%s: %s" % (type(e).__name__, e)
        out.write(json.dumps(res) + "\n")
        out.flush()


main()
