#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties the harness implements."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
ASSUME = "Sampling: it finds violations, it does not prove their absence. Trusts proptest, rustc and the oracle named in DESIGN.md."
T = {
 "C01": ("property-based testing of random key sequences (proptest, no-panic and range invariants, supervised child process)", ""),
 "C02": ("model-based property testing of Emacs keys against an independent (text, cursor) model", ""),
 "C03": ("property-based testing of Vi motions against declarative definitions of their targets", ""),
 "C04": ("model-based property testing of Vi change commands against an operator-span model", ""),
 "C05": ("differential property testing: dot against the command typed again", ""),
 "C06": ("model-based stateful property testing of undo and redo against snapshots", ""),
 "C07": ("model-based stateful property testing of history navigation", ""),
 "C08": ("model-based stateful property testing of incremental search, read off the emulated screen", ""),
 "C09": ("property-based testing of suggestions against a from-scratch choice", ""),
 "C10": ("property-based testing of sessions on a terminal emulator against an independent layout", "Trusts the emulator (vt.rs)."),
 "C11": ("model-based stateful property testing of completion", ""),
 "C12": ("property-based testing of filename completion over generated directory trees", ""),
 "C13": ("model-based stateful property testing of History against a bounded list", ""),
 "C14": ("model-based property testing of history files with write faults", ""),
 "C15": ("model-based stateful property testing of interleaved history instances over one file, and a randomized concurrent suite", "The concurrent suite runs real threads: the schedules it meets are the operating system's."),
 "C16": ("model-based property testing of whole sessions (result and event trace)", ""),
 "C17": ("property-based testing of the word divider and cursor classification against declarative definitions", ""),
 "C18": ("model-based stateful property testing of Buffer against a character vector", ""),
 "C19": ("differential property testing: a real pseudo-terminal against the scripted terminal", ""),
 "C20": ("fault-injection property testing over every terminal operation", ""),
 "C21": ("property-based testing of sessions with history before/after comparison", ""),
 "C22": ("property-based testing of sessions on a terminal emulator that follows colours, with a recording highlighter", "Trusts the emulator (vt.rs)."),
 "C23": ("model-based stateful property testing of the editor's public operations", ""),
 "C24": ("metamorphic property testing: the same keys under two display settings", ""),
}
DONE = open(os.path.join(here, "done.txt")).read().split()
m = dict(version=1, setup_cmd="./check.sh --build", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    t, extra = T[i]
    if i in DONE:
        m["checks"].append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
            evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=(ASSUME + " " + extra).strip()))
    else:
        m["not_applicable"].append(dict(property=i, reason="the check is still being built"))
m["notes"] = "No hooks in /repo are needed. Replays: ./check.sh ID --replay FILE. Findings and repairs: known-findings.txt."
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
