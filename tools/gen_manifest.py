#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK = "1089c36"
T = {
 "C01": "model-based property testing of generated write/read histories against a flat-array model",
 "C02": "property testing, bit-exact differential against scalar f32 arithmetic, metamorphic in-place/out-of-place relation",
 "C03": "property testing against a double-precision reference with exact and rounding-bounded comparison; metamorphic transpose relations",
 "C04": "property testing of generated incompatible and compatible calls: refusal predicate plus unchanged-operands invariant",
 "C05": "property testing against the direct convolution definition in double precision",
 "C06": "property testing against the brute-force adjoint, plus the inner-product metamorphic identity",
 "C07": "property testing with a validity predicate over values and recorded origins",
 "C08": "property testing of geometry predicates against an arithmetic reference over generated and boundary geometries",
 "C09": "property testing of softmax invariants, double-precision reference and shift metamorphic relation",
 "C10": "property testing of the layer over pass histories against the closed-form Jacobian-vector product",
 "C11": "property testing of layer pass histories against a reference layer, exact where representable",
 "C12": "property testing of layer pass histories against a reference layer, exact where representable",
 "C13": "property testing of layer pass histories with a routing validity predicate and conservation law",
 "C14": "differential property testing of training against inference mode over generated layers, networks and switch histories",
 "C15": "stateful model-based property testing of forward/backward/clear/load/switch histories",
 "C16": "stateful model-based property testing of network call histories with recording layers",
 "C17": "property testing with recording layers and a reference chain rule, plus parameter-gradient comparison",
 "C18": "stateful model-based property testing of mode-switch and append histories",
 "C19": "stateful model-based property testing of layer appends and refusals",
 "C20": "round-trip property testing through real files in a scratch directory, with bad-path faults",
 "C21": "round-trip and differential property testing of layer serialization, with damaged fields",
 "C22": "round-trip and differential property testing of network files, with append histories",
 "C23": "structure-aware mutation fuzzing of tensor and network files with a consistency-and-usability oracle",
 "C24": "property testing of layer construction against an acceptance predicate, with usability of what is accepted",
 "C25": "property testing of wrong-shaped calls: refusal plus unchanged later behaviour",
 "C26": "property testing against definitions, with statistical bounds of negligible false-alarm probability",
 "C27": "differential property testing of file bytes against an independent encoder and decoder of the established format",
 "C28": "fault-injecting model-based property testing of network call histories with failing recording layers",
 "C29": "differential property testing of generated interleavings and thread hand-overs against each object's solo run",
 "C30": "property testing of constructors and fill histories against reference layers",
 "C31": "property testing of repeated operation histories with a counting allocator: the memory held must not grow",
    "C32": "property testing of rectification and scatter-add against their definitions, bit for bit",
}
note = ("Randomised search, not proof: every generated case is checked against an explicit oracle and a failure is shrunk "
        "to a replay file; absence of violations holds for the cases generated (counts and samples in the evidence file). "
        "Fixed work per tier, a pure function of the code and VERIF_SEED{}. Assumes the preconditions listed in the evidence file's assumptions.")
nd = {"C26": " except for the library's own random initialisers", "C20": "", "C22": "", "C23": "", "C27": ""}
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./thorough.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "property-based testing and fuzzing: " + T[i],
        "level": "exploration",
        "level_note": note.format(nd.get(i, "")),
    })
full = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "-n1", HOOK], capture_output=True, text=True).stdout.strip()
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {
        "guard": "cfg verif_hooks",
        "enable": "RUSTFLAGS=\"--cfg verif_hooks\" (set by check.sh; if the accessors do not compile on a tree, check.sh builds without them and looks from outside only)",
        "source_commits": [full or HOOK],
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "check.sh builds the harness against /repo's working tree (about 15 s from nothing) and runs one property; check.sh replay <file> re-runs a saved case. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
