"""Writes MANIFEST.json from the table below."""
import json
import os
D = {
 "C01": ("trace checker over verbose/non-verbose report pairs", "verdict recomputed from every test in the report, verbose and non-verbose reports compared node by node"),
 "C02": ("step-budget, memory and exception monitors (sys.monitoring) under hostile workloads", "every analysis watched for completion, report shape, line-step budget and peak memory proportional to size"),
 "C03": ("executable reference model as online oracle on generated conforming images", "all tests of generated conforming images must pass; trusts the generator's reading of the format rules"),
 "C04": ("executable reference model as online oracle, container tests", "outcome of every container test compared with an independent executable specification"),
 "C05": ("executable reference model as online oracle, marker segment tests", "outcome of every marker segment test compared with an independent executable specification"),
 "C06": ("truncation fault enumeration with reference model oracle", "every cut point of sampled images and tile-part corruptions; verdict and structural tests compared with the model"),
 "C07": ("executable reference model as online oracle, container properties", "every reported container property compared with the value decoded independently from the bytes"),
 "C08": ("executable reference model as online oracle, codestream properties", "every reported codestream property compared with the value decoded independently from the bytes"),
 "C09": ("recomputation oracle for derived values", "compression ratio and other derived values recomputed from the bytes"),
 "C10": ("reference model oracle for cross-box consistency tests", "consistency tests compared with the relation recomputed from the bytes"),
 "C11": ("recorded library and command line reports compared (relational monitor)", "options and interfaces varied, reports compared with each other and the model"),
 "C12": ("online well-formedness, schema and conservation checkers on real command line output", "each output parsed, validated with lxml against the shipped schema, compared with the library report"),
 "C13": ("recomputation oracle over MIX records, exception and step monitors", "each MIX record recomputed from the reported properties"),
 "C14": ("trace checker: files reported against a file system model", "real command line runs over generated directory trees"),
 "C15": ("audit-hook, descriptor and process-state monitors; report histories compared", "sys.addaudithook events, fd table and module state snapshots around analyses"),
 "C16": ("round-trip oracle on embedded XML, UUIDs, URLs", "reported trees compared with the generated documents"),
 "C17": ("metamorphic trace comparison: insertion of unknown boxes and segments", "reports before and after insertion compared"),
 "C18": ("metamorphic trace comparison: equivalent encodings", "reports before and after re-encoding compared"),
 "C19": ("reference model oracle across formats", "each image judged under all four formats against the model"),
 "C20": ("fault injection on open, map and read with report monitors", "faults injected at random access points, unprivileged runs, address space limits"),
 "C21": ("fault injection on standard output, exit status and stream monitors over real processes", "exit status, both streams and the written prefix observed for every invocation; output faults at chosen byte counts"),
 "C22": ("reference model oracle for packet marker segments", "packet lengths and counts decoded independently"),
 "C23": ("reference model oracle for ICC profiles", "profile properties and restricted profile tests compared with the model"),
}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p, (t, note) in D.items():
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p,
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                   "technique": "runtime monitoring: " + t, "level": "exploration",
                   "level_note": note + ". Holds for the executions observed (counts in the evidence file); real code from "
                   "/repo's working tree, no stubs."})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import lxml, xml.etree.ElementTree'",
     "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: monitors attach from outside (sys.monitoring, sys.addaudithook, patched open/mmap). "
              "Known and repaired defects: known_findings.json. Replay: python3 check.py ID --replay CASE."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
