#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
 "C01": "property-based round-trip testing with generated fields, shapes and bounds; oracle: per-value error bound",
 "C02": "property-based round-trip testing with generated 3D fields in both precisions and block modes; oracle: per-value error bound",
 "C03": "property-based round-trip testing with generated per-point bounds; oracle: per-point error bound, bit equality at zero bounds",
 "C04": "property-based round-trip testing over the whole float range; oracle: per-value relative bound, sign and zero preservation",
 "C05": "property-based round-trip testing with generated per-point relative bounds; oracle: per-point relative bound, sign and zero preservation",
 "C06": "property-based round-trip testing of generated vector fields; oracle: per-component absolute bound",
 "C07": "property-based round-trip testing of generated vector fields; oracle: per-component relative bound, sign and zero preservation",
 "C08": "property-based round-trip testing; oracle: independent critical-point extraction on original and decompressed field",
 "C09": "property-based round-trip testing; oracle: independent critical-point extraction and classification on both fields",
 "C10": "property-based round-trip testing; oracle: independent bilinear root finding and classification on both fields",
 "C11": "property-based round-trip testing of generated 3D vector fields; oracle: per-component bound, sign and zero preservation",
 "C12": "property-based round-trip testing; oracle: independent 3D critical-point extraction on both fields",
 "C13": "property-based round-trip testing over generated tetrahedral meshes; oracle: per-component bound and critical-point extraction",
 "C14": "property-based round-trip testing of generated symbol sequences; coded size against that of a reference Huffman code",
 "C15": "property-based round-trip testing of generated byte strings; differential against libzstd",
 "C16": "model-based testing of generated write/read sequences; oracle: reference bit and cursor model",
 "C17": "property-based testing of generated bounds next to powers of the base; oracle: inequalities and index reproduction",
 "C18": "property-based testing with adversarial generated perturbations; oracle: sign evaluation in extended precision",
 "C19": "stateful model-based testing of generated quantise/save/load/recover histories",
 "C20": "fuzzing of every entry point under AddressSanitizer with exact-size stream copies and filled allocations",
 "C21": "stateful testing of generated call histories; metamorphic oracle: same call, same result, inputs unchanged",
 "C22": "generated concurrent workloads compared with their serial results, under ThreadSanitizer",
 "C23": "property-based testing of compressed sizes; metamorphic oracle on bounds and worst-case size",
 "C24": "property-based testing of the printed report and file round trips against a reference computation",
 "C25": "end-to-end fuzzing of the command-line programs in a scratch directory; oracle: bounds and critical points of the files written",
 "C26": "differential fuzzing: generated streams written by a frozen copy of the library, decoded by the frozen and the current decoder; independent reference reader for 3D per-point streams",
 "C27": "stateful property-based testing: generated calls repeated while live heap blocks are counted; oracle: exact balance per call",
 "C28": "property-based testing with deterministic step counting (coverage instrumentation) and allocation counting over generated data, shapes and sizes; oracle: linear cost bound",
 "C29": "property-based testing with every call on an instrumented stack of its own (pages touched), over generated data, shapes and sizes; oracle: fixed depth limit",
 "C30": "property-based testing: calls on generated inputs in a process with a generated state, compared before and after; differential oracle on the results",
}
NOTE = {}
try:
    NOTE = json.load(open(V + "/tools/level_notes.json"))
except OSError:
    pass
DEF = "Random exploration: the property held on every generated case of this run; nothing is proved beyond them. Cases are a pure function of the code and VERIF_SEED; every failure is shrunk and must reproduce before it is reported."
m = {"version": 1, "setup_cmd": "python3 run.py --build-all", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if os.path.exists(V + "/checks/%s.cpp" % i):
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                            "technique": TECH[i], "level": "exploration", "level_note": (NOTE.get(i, "") + " " + DEF).strip()})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "without")
