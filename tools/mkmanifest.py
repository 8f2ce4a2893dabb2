#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = {
 "C02": ("property-based testing: round-trip", "Random schemas in random writings; printing is a fixpoint and the re-reading compares equal."),
 "C03": ("property-based testing: independent reader as oracle", "Random schemas in random writings are read by ddlctl; an independent SQL reader recovers every declared fact from what ddlctl prints. Trusts the harness's own SQL reader."),
 "C04": ("property-based testing: metamorphic relation", "One token sequence in two random layouts, cases and quotings; both readings print alike and compare equal."),
 "C05": ("property-based testing: executed against a reference schema engine", "The emitted difference is executed by the harness's own DDL engine on the first schema and must yield the second. Trusts that engine."),
 "C06": ("property-based testing: executed against a reference schema engine", "Every statement of the difference must be executable, in order, by the engine, which enforces existence and dependency rules."),
 "C07": ("property-based testing: metamorphic relation and mutation", "Equal schemas in two writings give no difference; schemas one change apart give a difference that names the changed object."),
 "C08": ("property-based testing: frame condition over executed migration", "The engine records which objects each statement touches; none may be identical on both sides."),
 "C09": ("property-based testing: purity and determinism", "Deep dumps of both schemas before and after; repeated and re-read comparisons are byte-identical."),
 "C10": ("property-based testing: independent reader as oracle", "Random annotated Go files are generated from a random schema together with the statements they declare; the real command's output is read by an independent SQL reader and must declare exactly those."),
 "C11": ("property-based testing: round-trip and metamorphic relation", "generate is run on shuffled, renamed and re-run copies of the same source; outputs must be byte-identical, and must read back as the schema declared, with an empty difference."),
 "C12": ("property-based testing: differential relation between sources, executed against a reference engine", "The real command compares generated schemas, each supplied as a file, a directory of Go sources or a simulated database; equal schemas give nothing, and the migration, executed by the engine, gives the second schema. Trusts the engine and the simulated catalogs."),
 "C13": ("property-based testing: round-trip through a simulated database", "The real show command reads a simulated database (driver replaced below database/sql, catalogs evaluated on made-up rows next to decoys); an independent reader recovers exactly the database's schema. Failing and truncated queries must be errors. Trusts the simulated catalogs."),
 "C14": ("property-based testing: trace comparison over an instrumented database", "The statements that reach the simulated database are compared one by one, token by token, with the ones displayed, over generated schemas with hostile literals."),
 "C15": ("property-based testing: invariant over the statement history", "Generated answers, flags and early errors; the log of the simulated database must hold no data-definition statement unless approved."),
 "C16": ("property-based testing: fault injection", "A fault is injected at a generated point (open, ping, query, row, statement, batch, close); apply must fail with the cause, or recover completely, in which case the database must equal the source."),
 "C17": ("property-based testing: model-based histories", "Random histories of schema versions are applied to one simulated database; after each step the database must equal the source, and diff and apply must find nothing to do. Trusts the engine."),
 "C18": ("property-based testing: generated wrong command lines, metamorphic relation for settings", "The real command runs on command lines wrong in one way; status, message, empty output, untouched files and an unexecuted database are checked. Settings from flags and environment must act like the explicit flags they amount to."),
 "C19": ("property-based testing: frame condition over the file system", "The real command writes into new, existing, nested and directory destinations, or fails; the whole directory tree is compared before and after. Failures half-way through the final write are not injected."),
}
extra = V + "/tools/manifest_extra.json"
if os.path.exists(extra):
    T.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{
   "property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
   "evidence_file": f"evidence/{p['id']}.json", "technique": T[p["id"]][0], "level": "exploration", "level_note": T[p["id"]][1],
 } for p in props if p["id"] in T],
 "not_applicable": [{"property": p["id"], "reason": "the check for it is not built yet"} for p in props if p["id"] not in T],
 "notes": "No hooks in /repo: the harness is laid over the tree with go test -overlay. Known findings: known_findings.json.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
