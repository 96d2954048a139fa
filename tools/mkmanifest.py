#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
T = {
 "C01": ("runtime panic/overflow/hang/allocation monitors over structure-aware mutation of generated files",
         "every public read API driven over mutated files in a build with debug assertions and overflow checks; a panic, crash, confirmed CPU limit or out-of-proportion allocation is a violation"),
 "C02": ("Miri and AddressSanitizer runs plus pointer-range monitors on every returned slice",
         "undefined behaviour detected on the executed workload; slices checked for containment in the caller's buffer"),
 "C03": ("differential monitor over storages plus reference model of the read cache under injected short reads and faults",
         "every read result compared between slice and cached/sub-range readers; histories of cache requests compared with a byte-vector model"),
 "C04": ("cross-view agreement monitors over generated and mutated files",
         "every redundant access path of every item compared on each file"),
 "C05": ("reference-model monitor: independent ELF encoder versus every reader accessor", "generated files, expected values known from the model"),
 "C06": ("reference-model monitor: independent encoders of dynamic metadata; hash lookups against linear search", "generated tables, expected values known from the model"),
 "C07": ("reference-model monitor: independent PE encoder versus every reader accessor", "generated images, expected values known from the model"),
 "C08": ("reference-model monitor: independent COFF/bigobj/import encoder versus every reader accessor", "generated objects, expected values known from the model"),
 "C09": ("reference-model monitor: independent Mach-O/fat encoder versus every reader accessor", "generated files, expected values known from the model"),
 "C10": ("reference-model monitor: independent encoders of dyld data versus the decoders", "generated streams, expected operation sequences known from the model"),
 "C11": ("reference-model monitor: independent XCOFF encoder versus every reader accessor", "generated files, expected values known from the model"),
 "C12": ("reference-model monitor: independent archive encoder versus the archive reader", "generated archives of every variant, expected members and symbols known from the model"),
 "C13": ("reference-model monitor: independent WebAssembly encoder versus the reader", "generated modules, expected values known from the model"),
 "C14": ("reference-model monitor with injected corruption of headers and streams", "original bytes known; corrupt streams must be refused or decode to the same bytes"),
 "C15": ("linear-search oracle over every query", "each lookup compared with an exhaustive scan"),
 "C16": ("reference-model monitor of primitive operations", "each primitive compared with a few-line model on boundary-favouring values"),
 "C17": ("trace-to-output monitor: described objects versus independently parsed output", "each described item must be found in the output by an independent parser and by the reader"),
 "C18": ("relocation semantics monitor: requested versus independently decoded relocations", "place, target, type and effective addend recomputed from the output bytes"),
 "C19": ("strict structural monitors over written files", "independent strict parsers check layout, alignment, overlap and cross-reference rules"),
 "C20": ("multi-sink differential monitor with injected sink faults", "outputs compared across sinks; faults injected at every write"),
 "C21": ("reference-model monitor of string tables", "each identifier's string looked up in the written bytes"),
 "C22": ("trace-to-output monitor: call log versus independently decoded output", "every call's arguments must be found at the reserved offset"),
 "C23": ("trace-to-output monitor: call log versus independently decoded output", "every call's arguments must be found at the reserved offset"),
 "C24": ("differential monitor: input versus rewritten output, field by field", "both files decoded and matched item by item"),
 "C25": ("model-of-the-edit monitor over rewritten files", "output decoded and compared with the model of the edit"),
 "C26": ("differential and model-of-the-edit monitor over rewritten Mach-O files", "both files decoded independently and matched"),
 "C27": ("boundary-value monitor: refusal or exact representation", "each out-of-range request must return an error; each accepted one must be found exactly in the output"),
 "C29": ("cross-host differential monitor: oracles and transcripts on wasm32 (node) and big-endian s390x (Miri) versus the native run", "the other checks' oracles judge runs on 32-bit and big-endian hosts, and transcripts of the same inputs must be identical"),
 "C30": ("cross-build differential monitor: transcripts of reading, written and rebuilt bytes of 24 builds with fewer features versus the build with all formats", "each build's answers must be those of the build with all formats, or a refusal where the format isn't enabled"),
 "C28": ("exhaustive monitor over named constants", "every named value looked up and compared"),
}
NOTE = " No violation means none was observed on the executions counted in the evidence file; it is not a proof for inputs that were not generated."
checks, na = [], []
for i in ids:
    src = os.path.join(root, "harness/checks/src/bin", i.lower() + ".rs")
    if os.path.exists(src):
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                       "technique": t, "level": "exploration",
                       "level_note": "Runtime monitoring: " + n + "." + NOTE})
    else:
        na.append({"property": i, "reason": "not claimed yet: its check is still being built"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: every monitor sits at the public API boundary. See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
