#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check module is claimed."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "P01": "property-based testing: generated pairs of schemas, plan executed on a model MySQL server, resulting structure compared with the declared model",
    "P02": "property-based testing: generated pairs of schemas with foreign key graphs, each planned statement executed on a strict model MySQL server",
    "P03": "property-based testing: generated schemas in every spelling and server printing style; the plan must be empty, also right after applying",
    "P04": "property-based testing: every planned operation matched against the differences of the two generated models (invariant over the plan), rows of untracked tables compared before and after",
    "P05": "property-based testing: generated foreign key graphs with type changes; order of drops, changes and adds checked on the statement history while a model server runs it",
    "P06": "property-based testing: generated live and declared rows; plan executed on the model server, rows compared with the declared ones",
    "P07": "fuzzing of values and ids: statements read by an independent MySQL lexer and executed on the model server",
    "P08": "property-based testing against a reference model of row comparison over driver-typed values",
    "P09": "grammar-based generation: schema models rendered in every spelling, read back and compared with the model (round trip and metamorphic)",
    "P10": "grammar-based generation: row models rendered as INSERT text, read back and compared with the model",
    "P11": "property-based testing: print/read round trip, differential against the model server's reading of the printed text",
    "P12": "metamorphic property-based testing: the same commands split over strings, files and directories in any order",
    "P13": "fuzzing: mutated and truncated SQL with an independent account of what a text contains; nothing may vanish without an error, nothing may crash or hang",
    "P14": "property-based testing: generated schemas with injected foreign key faults, reports compared with a reference predicate of MySQL's rules",
    "P15": "property-based testing: generated valid schemas with injected faults from a catalogue; exactly the injected ones are reported",
    "P16": "property-based testing: generated files with injected errors; recorded connection must stay silent",
    "P17": "property-based testing: statements recorded at the connection compared with the plan",
    "P18": "stateful property-based testing: histories of schemas with faults injected at statement boundaries, converging against the model server",
    "P19": "stateful (model-based) property-based testing of in-memory definitions against an ordered reference model",
    "P20": "property-based testing: generated directory trees and settings against a reference model of the documented lookup",
    "P21": "grammar-based generation and fuzzing of environment files against a reference reader",
    "P22": "property-based testing: export, replace in the files, plan again must be empty; compared with the model of differing tables",
    "P23": "metamorphic property-based testing: the same generated pair planned repeatedly, in other processes with other hash seeds, and through other interfaces; definitions compared before and after",
    "P24": "differential property-based testing: generated argument lists run through the command line program and through the program interface; printed plans split like an SQL client and executed on the model server",
    "P25": "differential property-based testing: the same generated model built from the public classes and read from SQL; definitions, errors, printed SQL and plans compared, printed SQL and plans executed on the model server",
    "P26": "stateful differential property-based testing: generated operation sequences printed by both operation families and by an independent renderer, executed on the model server; the server compared with the definitions in memory",
}
NOTE = {}
checks, missing = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if not os.path.isfile(os.path.join(V, "checks", p.lower() + ".py")):
        missing.append({"property": p, "reason": "the check is not built yet"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "./run %s --tier quick" % p.lower(),
        "thorough_cmd": "./run %s --tier thorough" % p.lower(),
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH[p],
        "level": "exploration",
        "level_note": NOTE.get(p, "generated-input search on the real code against an explicit oracle; bounds and counts are in the evidence file"),
    })
m = {
    "version": 1,
    "setup_cmd": "python3-vt -c \"import sys; sys.path.insert(0,'lib'); import boot, hypothesis, model, sim, render, plan\"",
    "checks": checks,
    "not_applicable": missing,
    "notes": "Checks import /repo's working tree directly (pure Python, nothing to build). See DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
print(len(checks), "checks;", len(missing), "missing")
