#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from specs import SPECS
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
S = "generated thread schedules (a controlled scheduler makes the interleaving an input, PCT and random walks)"
TECH = {
 "C01": "property-based testing with %s plus real-thread stress; oracle: multiset of accepted statements, byte for byte" % S,
 "C02": "property-based testing with %s plus real-thread stress; oracle: begin/end tickets of statements, pairwise order on all devices" % S,
 "C03": "stateful property-based testing: generated start/stop/restart histories against a two-state model and exact file contents",
 "C04": "stateful property-based testing of nested statements, files read after each return; multi-threaded part with %s" % S,
 "C05": "property-based testing: generated filter configurations and run-time changes against the predicate of the statement",
 "C06": "property-based testing: round trip from a generated configuration model through rendered text to the parsed and running configuration",
 "C07": "structured and mutational fuzzing of configuration bytes under ASan/UBSan with termination and limit oracles",
 "C08": "property-based testing with lengths aimed at the record size; oracle: set of acceptable texts, neighbours unchanged, ASan",
 "C09": "property-based testing of number rendering against std::to_string, independent digit generation and 128-bit arithmetic",
 "C10": "property-based testing: generated instants, zones, threads and prefix masks against localtime_r and a prefix model",
 "C11": "property-based testing: generated composite values and front ends against an independent renderer",
 "C12": "stateful property-based testing against a reference model of size-rolled files, whole tree compared after every statement",
 "C13": "stateful property-based testing against a reference model of date-rolled files under a virtual clock in 21 zones",
 "C14": "fault injection in generated histories (obstacles, permissions, descriptors, file size) against a must/may/never model per line",
 "C15": "crash injection at generated scheduling steps over chains of processes; oracle: exactly once, unaltered, in order",
 "C16": "stateful property-based testing of generated configuration file changes under a virtual clock, plus %s" % S,
 "C17": "stateful property-based testing: counters recomputed from accepted statements and from the bytes actually output, plus %s" % S,
 "C18": "stateful property-based testing with real loopback sockets: exact datagram sequences and input outputs, plus %s" % S,
 "C19": "property-based testing of exact standard output, multi-threaded part with %s" % S,
 "C20": "stateful property-based testing: a filter model predicts each hook call and each transmitted line, plus %s" % S,
 "C21": "generated concurrent histories of start/stop/statements under %s and under real threads with ASan" % S,
 "C22": "differential testing: the same generated history executed by differently configured, compiled and packaged builds",
}
checks = []; na = []
for i in ids:
    if i in SPECS:
        s = SPECS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                           technique=TECH.get(i, "property-based testing: generated inputs against a reference oracle, shrunk replay"),
                           level=s.get("level", "exploration"),
                           level_note=s.get("level_note", "No violation in the generated cases counted in the evidence; exploration, not proof. Trusts the oracle in the harness, libc and the sanitizers.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 run.py build", checks=checks, not_applicable=na,
         notes="run.py ID builds the harnesses of one property from /repo's working tree (VERIF_TIER/VERIF_SEED from the environment); run.py replay FILE re-runs a saved failure.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
