#!/usr/bin/env python3
"""Writes MANIFEST.json (one place for the wording of the levels)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Trusted: TLC, the specification's reading of the file format, the runner that records calls. "
         "Assumes bounded instances are representative beyond the bounds.")
N = {
"C01": ("TLA+ call protocol + outcome specification; TLC trace validation of recorded calls on cuts, corruptions and exported reader behaviours",
        "Every call on every explored byte string returns (no panic, abort, hang); inputs are model-exported files, all their prefixes, single-byte corruptions and generated demos, not all byte strings."),
"C02": ("TLA+ call-history trace specification (memo), checked by TLC over histories recorded in several processes, orders, thread schedules and environments",
        "Every recorded call equals the first result recorded for the same (function, bytes); list views model-checked."),
"C03": ("TLA+ writer/reader model with torn tails (TLC), exported behaviours and cut/corrupted recordings replayed; calls validated by TLC",
        "All cut points of exported small behaviours and sampled cut points of generated recordings."),
"C04": ("TLA+ recorder model of the print stream (TLC exhaustive) + replay of exported behaviours + trace validation", "Exhaustive over small frame/message histories, sampled beyond."),
"C05": ("TLA+ obituary ledger model (TLC exhaustive over all obituary templates) + replay + trace validation", "Every obituary template with exhaustive short match histories, sampled long ones."),
"C06": ("TLA+ team-kill attribution model (TLC exhaustive) + replay + trace validation", "Exhaustive over small rosters/score orders/frames, sampled beyond."),
"C07": ("TLA+ flag-event ledger model (TLC exhaustive) + replay + trace validation", "Two recorded known findings (flag scan is byte-wise) are listed in known-findings.txt and reported as such."),
"C08": ("TLA+ ping-sample model (TLC exhaustive) + replay + trace validation", "Exhaustive over small sample histories, sampled beyond."),
"C09": ("TLA+ clock model (TLC exhaustive) + replay + trace validation", "Exhaustive over small frame-time histories, sampled long recordings; float sums compared in exact milliseconds."),
"C10": ("TLA+ clock/statistics model (TLC) + replay + trace validation", "Exhaustive over presence/absence combinations, sampled values."),
"C11": ("TLA+ roster model (TLC exhaustive) + replay + trace validation", "Exhaustive over small rosters, sampled beyond."),
"C12": ("TLA+ view operators model-checked over roster states + replay + trace validation", "Exhaustive over small rosters, sampled beyond."),
"C13": ("TLA+ player-join model (TLC) + replay + trace validation", "Exhaustive over small rosters and statistics, sampled beyond."),
"C14": ("TLA+ team aggregation operators (TLC exhaustive over player lists) + replay + trace validation", "Exhaustive over small player lists, sampled beyond."),
"C15": ("TLA+ block reassembly model (TLC exhaustive over splits) + replay + trace validation", "Exhaustive over small block splits, sampled large documents."),
"C16": ("TLA+ serverinfo layout model (TLC exhaustive) + replay + trace validation", "Exhaustive over small layouts and cut points, sampled keys and values."),
"C17": ("TLA+ validity decision table (TLC exhaustive over the criteria) + replay + trace validation", "Every combination of the four criteria, sampled recordings."),
"C18": ("TLA+ marker model (TLC exhaustive) + replay + trace validation", "Exhaustive over small marker histories, sampled beyond."),
"C19": ("TLA+ calendar specification (TLC over all month ends, leap years, zones) + replay + trace validation", "All zone offsets at calendar boundaries, sampled dates beyond."),
"C20": ("TLA+ joint invariants over all views of one demo (TLC trace validation) + exported behaviours replayed", "Sampled complete recordings and model-exported ones."),
}
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup",
     "checks": [{"property": k, "quick_cmd": f"python3 tools/check.py {k}",
                 "thorough_cmd": f"python3 tools/check.py {k} --thorough",
                 "evidence_file": f"evidence/{k}.json",
                 "technique": t, "level": "model_checking", "level_note": n + " " + TRUST}
                for k, (t, n) in N.items()],
     "not_applicable": [],
     "notes": "No hooks in /repo: the runner uses the public API only. 19 genuine defects are repaired in fix: commits; see known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
