"""Writes /verif/MANIFEST.json from properties.jsonl and the lists below."""
import json, subprocess
CLAIMED = [f"P{i:02}" for i in range(1, 21)]
NA = {}
NOTE = ("Seeded search over simulated runs of the real hudi-core code against a reference model of the table; "
        "a violation is reported with its seed and a minimised replay file. It shows the property on the runs explored, "
        "not on all runs. Trusts the model of Hudi's writers and of the object store in sim/src.")
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in log.splitlines() if l.split(" ", 1)[1].startswith("sim:")]
m = {
    "version": 1,
    "setup_cmd": "sh /verif/check.sh build",
    "hooks": {
        "guard": "--cfg hudi_sim",
        "enable": "RUSTFLAGS='--cfg hudi_sim' cargo build in /verif/sim, /verif/simdf and /verif/simpy (see env.sh); without the cfg the hook is not compiled",
        "source_commits": hooks,
    },
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"sh /verif/check.sh check {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough sh /verif/check.sh check {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and histories",
            "level": "exploration",
            "level_note": NOTE,
        }
        for p in props if p["id"] in CLAIMED
    ],
    "not_applicable": [
        {"property": p["id"], "reason": NA.get(p["id"], "The check for this property is still being built.")}
        for p in props if p["id"] not in CLAIMED
    ],
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
