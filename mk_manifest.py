#!/usr/bin/env python3
"""Writes MANIFEST.json (developer helper)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
tech = {
 "C01": ("redzone/poison allocator, drop ledger, AddressSanitizer and Miri over the workloads of all properties", "exploration"),
 "C02": ("drop ledger and live-value balance monitor over random sharing histories, Miri", "exploration"),
 "C03": ("snapshot monitors on every live tensor and accessor sweeps against an index model", "exploration"),
 "C04": ("shape invariant monitor on every result and shape model over random edit sequences", "exploration"),
 "C05": ("reference-model monitor of constructors over nested, ragged and mis-sized inputs", "exploration"),
 "C06": ("reference-model monitor with call log and scalar oracle over broadcasting shapes", "exploration"),
 "C07": ("reference-model monitor with symbolic fold traces and f64 error bounds", "exploration"),
 "C08": ("reference-model monitor of joins over shapes, axes and views", "exploration"),
 "C09": ("reference-model monitor of splits with rejoin check", "exploration"),
 "C10": ("reference-model monitor of transpose and tile", "exploration"),
 "C11": ("f64 reference product monitor with running error bounds", "exploration"),
 "C12": ("index-predicate monitor and call log of initialisers", "exploration"),
 "C13": ("f64 reference monitor with allocation budget and watchdog for termination", "exploration"),
 "C14": ("stream monitor against an independent recurrence, crafted seeds, moment monitors", "exploration"),
 "C15": ("offline exactly-once checker over recorded thread streams; stress, ThreadSanitizer, Miri schedules", "exploration"),
 "C16": ("ThreadSanitizer, Miri schedules, per-thread result monitors and drop ledger under stress", "exploration"),
 "C17": ("O(n^2) f64 transform monitor", "exploration"),
 "C18": ("conservation and enclosure monitor of histograms", "exploration"),
 "C19": ("independent encoder with byte-level fault injection, sample monitor", "exploration"),
 "C20": ("content monitor under injected short, interrupted and failing reads", "fault_enumeration"),
 "C21": ("generated client programs, call sequences monitored against a plain model", "exploration"),
 "C22": ("panic injection at every user call, drop ledger and snapshots afterwards, AddressSanitizer, Miri", "fault_enumeration"),
 "C23": ("comparison monitor against list comparison", "exploration"),
 "C24": ("differential replay monitor: results recorded, disturbed, recomputed elsewhere and compared by bits", "exploration"),
}
note = {
 "default": "Held on the executions of this run (two build profiles, cases made from the seed). Trusts the harness's reference code, the compiler and std.",
 "C01": "Held on the executions of this run: overflow by at most the red zones, freed memory as long as it is not reused, and all undefined behaviour Miri knows on the small cases it ran. Clean panics are not judged here.",
 "C15": "Held on the schedules that stress, ThreadSanitizer and Miri's random scheduler produced in this run. Reseeding while other threads draw is not specified.",
 "C16": "Held on the schedules that stress, ThreadSanitizer (std instrumented too) and Miri's random scheduler produced in this run. Send/Sync claims are read off the compiled types.",
 "C20": "Every generated file is read under a plan of short, interrupted or failing reads at the system-call boundary; not a full enumeration of fault sequences.",
 "C22": "For every generated operation each call index (up to 40, then sampled) is made to panic; destructor panics are sampled.",
 "C21": "Held on the generated structs and sequences; generic structs and field names that collide with trait methods in scope are not generated.",
}
checks = []
for p, (t, l) in tech.items():
    checks.append({"property": p, "quick_cmd": f"python3 run_check.py {p} quick", "thorough_cmd": f"python3 run_check.py {p} thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": t, "level": l, "level_note": note.get(p, note["default"])})
m = {"version": 1, "setup_cmd": "python3 run_check.py --setup",
     "hooks": {"guard": "verif_hooks", "enable": "RUSTFLAGS='--cfg verif_hooks' when building the harness crates of /verif",
               "source_commits": ["8773317"]},
     "checks": checks, "not_applicable": [],
     "notes": "Known findings and repaired defects: known_findings.txt. Design and results: DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
