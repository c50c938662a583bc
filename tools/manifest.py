#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the modules the harness has."""
import json, re, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(root / "properties.jsonl")]
built = set(re.findall(r'"(C\d\d)"', (root / "mc/src/main.rs").read_text()))

SEQ = ("stateless exhaustive exploration of the implementation: every sequence of choices "
       "(documents, operations, profiles, paths, ..) within the bounds is executed on the real code "
       "and each state compared with an independent reference model")
TECH = {
    "C06": "exhaustive fault enumeration (every pattern of failing sources) on the implementation, compared with a reference model",
    "C12": "exhaustive enumeration of strings over a token alphabet, executed on the implementation and compared with an independent reference parser",
    "C19": "exhaustive exploration of histories of reads and environment changes on the implementation, compared with the model state at the time of addition",
    "C20": "exhaustive exploration of jail operation histories and endings on the implementation, state compared before and after",
    "C21": "exhaustive exploration of jail operations over paths, in an unprivileged process confined to scratch directories, compared with a model file tree",
    "C22": "stateless model checking of the implementation: all thread interleavings at hooked scheduling points up to a preemption bound",
    "C23": "stateless model checking of the implementation: all thread interleavings at hooked scheduling points up to a preemption bound",
}
NOTE = {
    "default": ("Every execution within the bounds listed in the evidence is run on the real code; nothing is "
                "sampled. Trusts the reference model in mc/src, rustc and serde. Inputs beyond the bounds "
                "are not covered."),
    "C22": ("Every interleaving of the scheduling points (atomics, locks, environment and directory "
            "operations of jail.rs, and steps of the closures) within the preemption bound, with "
            "sequentially consistent memory. Code between two points is taken to be atomic."),
    "C23": ("Every interleaving of the scheduling points (atomic operations of tag.rs, source callbacks, "
            "steps of the threads) within the preemption bound, with sequentially consistent memory."),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in built:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH.get(i, SEQ),
        "level": "model_checking",
        "level_note": NOTE.get(i, NOTE["default"]),
    })
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {
        "guard": "cfg(figment_mc)",
        "enable": 'RUSTFLAGS="--cfg figment_mc" cargo build (done by check.sh; falls back to a build without hooks if that fails)',
        "source_commits": ["d7090f2", "90d2b30"],
    },
    "checks": checks,
    "not_applicable": na,
}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
