#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("grammar-based and coverage-guided fuzzing with crash oracle", "Panics, aborts, overflows (checked arithmetic on) and stalls in any generated history under a controlled clock; the search is coverage-guided over structured and raw texts."),
 "C02": ("metamorphic work/memory measurement over generated sentences and histories", "Executed branches (coverage counters), allocated bytes and the heap held by the parser are measured per call and compared with bounds that depend only on text length and unfinished data, and between sentences that differ only in claimed numbers."),
 "C03": ("property-based mutation of sentences against a checksum model", "All one-character changes of the sampled sentences, all 128 x 256 right/given sums and generated suffixes against an independent model."),
 "C04": ("property-based testing, metamorphic over talkers", "All 676 capital talkers in each sentence kind, generated others; the rest of the result must not depend on the talker."),
 "C05": ("property-based testing against a classification model", "All sentence types of three capitals, all 64 message types and generated malformed AIS framing against an independent classification; random beyond."),
 "C06": ("model-based stateful testing of AIS reassembly", "Generated histories against a reference model keyed by (kind, id, channel) with a fresh-parser differential for the joined payload; short interleavings systematically."),
 "C07": ("model-based stateful testing of GSV groups", "Generated histories against a reference model; all arrival orders with a repetition for groups up to four."),
 "C08": ("model-based stateful testing of type 24 pairing", "Generated histories against a reference model; all sequences of six parts over two vessels."),
 "C09": ("metamorphic stateful testing: interleaved streams against solo parsers", "Generated interleavings with noise must give each stream the answers of a fresh parser; long histories first in some cases."),
 "C20": ("property-based testing, every code in generated contexts", "Every code of every table, each in many generated surrounding messages."),
 "C21": ("exhaustive generation against an embedded MID table", "Every one of the 2^32 MMSI values is compared with the ITU table; other fields are generated."),
}
D = ("property-based testing against an independent bit-level reference decoder", "Field sweeps (every value of narrow fields, edge values of wide ones) in generated messages plus random and coverage-guided messages, compared with an independent decoder written from ITU-R M.1371.")
for k in "C10 C11 C12 C13 C14 C15 C16 C17 C18".split(): T[k] = D
T["C19"] = ("property-based testing against a reference text decoder", "Every symbol at every position, and generated texts, in every text field, compared with an independent six-bit text decoder.")
T["C22"] = ("metamorphic property-based testing of payload framing", "Generated messages cut, extended, split and re-framed must decode alike.")
T["C23"] = ("property-based testing against exact coordinate arithmetic", "All whole minutes of both coordinates with generated decimals, in all hemispheres and the three sentences.")
T["C24"] = ("property-based testing against a reference calendar under a controlled clock", "All times and dates of six digits are swept in part, generated malformed ones and system dates across years.")
T["C25"] = ("property-based testing against a reference field decoder", "Generated combinations of present, empty, missing and additional fields.")
T["C26"] = T["C25"]
T["C27"] = ("property-based testing with malformed-field injection", "Every field of every GNSS sentence crossed with curated and generated malformed texts.")
T["C28"] = ("property-based differential testing of two accessors", "Every position-bearing message kind with generated and edge positions, fields against the generic access.")
T["C29"] = ("property-based testing against documented name tables", "Every code of every printable table in generated messages; texts compared with an embedded table.")
T["C30"] = ("model-based stateful testing: several parsers, generated schedules and threads, against solo parsers", "Generated histories with colliding identities are dealt to several parsers, interleaved, moved between threads and run in parallel; each must answer as when it is alone.")
T["C31"] = ("property-based testing and coverage-guided fuzzing against range invariants", "Histories of valid, mutated and arbitrary texts, all AIS types and lengths and number fields of every length; every value of every result is checked against the limits of its field.")
T["C32"] = ("metamorphic property-based testing of result pairs", "Generated pairs of messages that differ in few bits or one field; equality, copies and error texts are compared with the values shown.")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
assert sorted(T) == ids
m = {
 "version": 1,
 "setup_cmd": "bash build.sh",
 "checks": [{
   "property": i,
   "quick_cmd": "bash check.sh " + i,
   "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
   "evidence_file": "evidence/%s.json" % i,
   "technique": T[i][0],
   "level": "exploration",
   "level_note": T[i][1] + " Only what is generated is decided (see evidence); trusts the oracle in harness/src, rustc and the replaced clock and allocator.",
 } for i in ids],
 "not_applicable": [],
 "notes": "Each check rebuilds /verif/harness (path dependency on /repo, branch coverage by rustc-wrapper.sh) and runs one property. Replay files: bash replay.sh <file>. No hooks in /repo are needed.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
