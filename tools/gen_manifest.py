#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
M = "runtime monitoring: "
N = {
"C01": ("exploration", M+"generated documents through the real encoder/decoder, oracle = own structural comparison driven by the glTF field table", "No difference on the documents generated (every field of the glTF tables, defaults, near-defaults, hostile strings, every buffer placement, three output forms, twice, cross-form, memory and disk). Domain limits are listed in DESIGN.md."),
"C02": ("exploration", M+"independent JSON parser/printer and a glTF schema table as oracle over encoded and decoded texts", "Every member written is checked against an independent table of glTF names, nesting and codes; decoding is checked on independently printed JSON with random order, whitespace and unknown members. Trusts the table (harness/spec.go)."),
"C03": ("exploration", M+"presence/absence/value enumeration per defaulted property, monitors on default variables and earlier documents", "All defaulted properties, absent, explicit default, near-default and partly-default values, over sequences of decodes and encodes in one process."),
"C04": ("exploration", M+"exhaustive enumeration of the enum values in isolation and in documents, against an own code table", "All values of all enums and all 42 type combinations are executed; texts outside are sampled."),
"C05": ("exploration", M+"byte-level GLB parser as oracle over generated documents", "Every container produced is parsed byte by byte by an independent reader."),
"C06": ("exploration", M+"recording file system, exactly-once accounting of buffer bytes between stream, URI and files", "Every open/create/write/close is recorded; delivered = held bytes for every buffer, in memory and on disk."),
"C07": ("exploration", M+"recording file system that stands in for the disk (no real path is touched), hostile URI generator, own percent-decoder and path oracle", "Every name that reaches the file system is judged; also a disk family in nested scratch directories. Windows path semantics are only judged for names that Linux also treats as such."),
"C08": ("exploration", M+"hostile/mutated inputs in limited worker processes; monitors for panics, allocation and CPU time", "No panic, no over-allocation (allocated bytes measured against input size) and bounded CPU on the inputs generated."),
"C09": ("exploration", M+"every prefix and targeted corruptions of generated containers, own container oracle", "All strict prefixes of small files, sampled ones of larger files, and structured corruptions; reader errors are judged by an independent container parser."),
"C10": ("fault_enumeration", M+"readers that deliver the same bytes in different pieces and fail at every position", "All failure positions and all single split points of small inputs, sampled ones of larger inputs; non-sticky reader errors are outside."),
"C11": ("fault_enumeration", M+"fault injection at every write, create, write-to-file and close, with accounting of delivered bytes", "Every write call and byte position (small documents), every create/write/close of the virtual file system, failing saves on disk with descriptor accounting."),
"C12": ("exploration", M+"own byte-level codec as oracle, guard bytes around buffers, also under the race detector's pointer checks", "All 42 combinations and colour structs with every stride class, all bit patterns sampled; bytes outside the components must keep their guards."),
"C13": ("exploration", M+"guarded backing buffers of every length/capacity/alignment, reflection oracle, checkptr + race build", "All combinations; stores to the full slice capacity between guard bytes; memory checks only see executed accesses."),
"C14": ("exploration", M+"accessors of every form over generated buffers against an own reading of the glTF definition", "Values compared bit for bit (NaN payloads included) with an independent definition of accessor data."),
"C15": ("exploration", M+"hostile documents, three-valued reference verdict (must fail / must equal / may), allocation monitor", "No panic and no over-allocation on the malformed documents generated; where the reference says error, an error is required."),
"C16": ("exploration", M+"all type combinations per reader, independent conversions in float64/integers", "All 8-bit and (thorough) 16-bit codes; float colours within one code of the sRGB equation. One recorded finding."),
"C17": ("exploration", M+"histories of reads with reused and dirty buffers, kept results are re-checked at the end", "Histories of up to 40 reads over pooled/reused/dirty buffers, also in the race build (checkptr)."),
"C18": ("exploration", M+"model of the written items, everything is read back after every step and after reloads", "Histories of modeler writes of every kind with rejected writes in between; bit-exact."),
"C19": ("exploration", M+"structural invariant monitor after every modeler step, deep snapshots of what existed", "Invariants checked at every step of the histories; documents start consistent."),
"C20": ("exploration", M+"metadata oracle over every accessor written and over refused data types", "Component-wise min/max, normalized, targets and strides checked at every write; NaN/Inf positions are outside."),
"C21": ("exploration", "race detector and runtime monitoring: concurrent operations on shared documents, results compared with the ones alone, deadlock monitor", "Race-free and deterministic on the interleavings executed (counted as distinct start/end orders); the Go race detector sees executed accesses only."),
"C22": ("exploration", M+"recording extension functions with unique marks at every place of the glTF table", "Every owner type is covered; calls are counted (exactly once) and contents are followed by unique marks."),
"C23": ("exploration", M+"generated values of the bundled extensions, schema oracle and structural comparison", "Typed values, JSON form and nested contents with hostile strings."),
"C24": ("exploration", M+"exhaustive integer codes; all floats in [-1,1] in the thorough tier; equations in float64 as oracle", "Integer codes are exhaustive in both tiers, floats sampled (quick) or exhaustive by bit pattern (thorough)."),
"C25": ("exploration", M+"deep snapshots with spare capacity and data pointers around every operation", "Inputs equal their deep copies after successful and failing encodes, reads, decodes and writes; callers' later changes do not show."),
"C26": ("exploration", M+"independent base64 encoder and grammar, corruptions at every position", "All lengths modulo 3, every position of small texts corrupted, random ones of larger."),
}
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
checks = []
for p in props:
    level, tech, note = N[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']} quick", thorough_cmd=f"bash run.sh {p['id']} thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=tech, level=level, level_note=note))
man = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no hooks: the monitors use the public API only", source_commits=[]),
           checks=checks, not_applicable=[], notes="run.sh builds the harness against /repo's working tree (go.mod replace) on every run; see DESIGN.md")
json.dump(man, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
