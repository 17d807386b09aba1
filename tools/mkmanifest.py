#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(l); props[d["id"]] = d
SEQ = "deterministic simulation with fault injection: seeded histories against simulated storage, destinations and template files, checked by a reference model and an independent package reader"
CONC = "deterministic simulation: seeded scheduler over statement-level yield points, checked against %s and by a deterministic race detector"
tech = {k: SEQ for k in props}
tech["C11"] = CONC % "linearizability of the counters"
tech["C12"] = CONC % "a sequential reference model, through save, crash and reopen"
tech["C13"] = CONC % "what each caller gets alone on a twin document"
tech["C14"] = CONC % "what each caller gets alone, with storage faults"
note = {
 "C01": "Seeded search. Faults at arbitrary byte offsets of the destination, of template files and of the source; the saved bytes are read by an independent reader and compared part by part with the model. Trusts archive/zip's reader for the comparison.",
 "C02": "Seeded search. Crashes and failing writes at seeded offsets, and for every acknowledged package dozens to thousands of prefixes including all part boundaries; everything left must be rejected.",
 "C03": "Seeded search. The exported state before and after each save, and the parts of a save after failing saves against those of a twin that lived without them.",
 "C04": "Seeded search. Built documents, foreign packages and documents made from the exported types go through repeated edit-save-lose-open cycles; full dumps of the exported structure and a model are compared.",
 "C05": "Seeded search over foreign and own packages, generations of saves, and sources that fail, end early or are damaged while saving.",
 "C06": "Seeded search over bit flips, zeroed sectors, truncation, torn overwrites, failing and transient reads and mangled but intact packages. Damage inside of the zip directory, which carries no checksum, is limited to truncation.",
 "C07": "Seeded search over histories of adding, saving, losing, opening, appending, splitting and rebuilding.",
 "C08": "Seeded search; every lookup is compared with the listing after every step.",
 "C09": "Seeded search; the set of ids ever seen in a document is kept and compared after every step.",
 "C10": "Seeded search; a counting template file system with faults at every open and read.",
 "C11": "Seeded schedules; values and call intervals are checked for linearizability, by name.",
 "C12": "Seeded schedules; assumes that callers keep to their own paragraphs and cells, as the property says. Links and pictures are left out: they share tables the library does not guard.",
 "C13": "Seeded schedules of readers with failing destinations; results compared with those on a twin.",
 "C14": "Seeded schedules of independent callers with faults of their own; results compared with the same calls run alone.",
 "C15": "Seeded search over failing files and damaged images; the exported state must not change on an error.",
 "C16": "Seeded search over documents and separators, including ones that panic; pieces are edited, saved, reopened without the source.",
 "C17": "Seeded search over documents appended to one another and edited, lost and reopened in between.",
 "C18": "Seeded search over repackings (order, compression, folders) and map orders; read and saved state compared.",
}
note["C19"] = "Seeded search. The tool's main runs inside of the simulator on a simulated disk (package os replaced at build time): failing, short and lost writes, failing creates, reads that fail or end early, crashes, files left by earlier runs. Trusts the library's own parse of the healthy input to say what the options -c, -p and -s ask for."
tech["C19"] = "deterministic simulation with fault injection: the tool's main run on a simulated disk, its files read by an independent package reader"
note["C20"] = "Seeded search over histories in which paragraphs of built and foreign documents are merged by every rule. The merged paragraph is compared with the original, and what the next good save writes, after failing ones, with what a save before the merge wrote."
note["C21"] = "Seeded search over histories in which built and foreign documents are filtered. The filtered document, and what the next good save writes, after failing ones, are compared with a reference filter of what was there before."
note["C22"] = "Seeded search over histories that add, open, append and split pictures of all formats over packages and templates with tables of many forms; every good save, after failing ones, is read independently and its table compared with the one before."
note["C23"] = "Seeded search over histories that link, add pictures, append, split, load, filter, save, fail to save, lose the process and reopen; in every good save all references of the body and all internal targets are resolved by an independent reader, and the references to carried parts are counted, in pieces of a split too."
note["C24"] = "Seeded search over packages of Word's kind and of this library's, whose XML is written again in another way by an independent writer (checked to say the same); what is read, further edited, appended and saved must be the same."
note["C25"] = "Seeded search over histories of editing, printing, splitting by regular expressions, appending, merging, filtering, saving, losing and reopening built and foreign documents; what every paragraph and table prints is matched against what an independent model says is in it."
checks = []
for k in sorted(note):
    checks.append({
        "property": k,
        "quick_cmd": f"./check.sh {k}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {k}",
        "technique": tech[k],
        "level": "exploration",
        "level_note": note[k],
    })
na = [
]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {
  "guard": "go build -overlay (no change in /repo: the instrumented sources are generated from the working tree at build time)",
  "enable": "build.sh runs sim/instr, which writes instrumented copies of /repo's sources and an overlay file, and builds sim/harness with -overlay",
  "source_commits": [],
 },
 "checks": checks,
 "not_applicable": [{"property": a, "reason": b} for a, b in na if a not in note],
 "notes": "Replay a violation with ./replay.sh FILE. Defects found and repaired are listed in known-findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
