"""Regenerates MANIFEST.json from the plans."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ["e17bfa4"]


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if p not in plans.PLANS:
            na.append({"property": p, "reason": "check under construction"})
            continue
        tech, note = plans.NOTES.get(p, plans.NOTES["default"])
        checks.append({"property": p, "quick_cmd": "bin/check %s quick" % p, "thorough_cmd": "bin/check %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": "model_checking", "level_note": note})
    full = [subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True).stdout.strip() for h in HOOKS]
    m = {"version": 1, "setup_cmd": "bin/setup",
         "hooks": {"guard": "cfg(uflow_verif)", "enable": "RUSTFLAGS=\"--cfg uflow_verif\" (bin/setup and bin/check set it; uflow_verif_min additionally leaves out the re-exports of internals)", "source_commits": full},
         "checks": checks, "not_applicable": na,
         "notes": "TLA+ checked with TLC. KNOWN_FINDINGS.txt lists repaired and recorded defects."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
