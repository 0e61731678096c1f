#!/usr/bin/env python3
"""Write /verif/MANIFEST.json."""
import json
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
T = {
    "layout": "explicit-state exploration of the real code against a reference layout model",
    "search": "exhaustive bounded exploration of the real code against a full-scan oracle",
    "dist": "exhaustive enumeration of a bounded geometry lattice against reference distances",
    "conc": "exhaustive interleaving of query steps on the real code against solo runs",
    "err": "exhaustive enumeration of settings x histories x calls against an error model",
}
KIND = {"C01": "layout", "C02": "layout", "C03": "layout", "C04": "layout", "C05": "layout", "C12": "dist", "C13": "dist", "C14": "dist", "C19": "dist",
        "C15": "err", "C16": "layout", "C17": "conc", "C18": "layout", "C20": "search"}
NOTE = "Every history, setting, call and schedule of the bounds listed in the evidence file is executed on the current code and compared with the reference; nothing beyond those bounds is claimed."
props = [json.loads(l) for l in (HERE / "properties.jsonl").read_text().splitlines() if l.strip()]
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py run {i} quick", thorough_cmd=f"python3 check.py run {i} thorough",
                       evidence_file=f"evidence/{i}.json", technique=T[KIND.get(i, "search")], level="model_checking", level_note=NOTE))
doc = dict(version=1, setup_cmd="python3 check.py build", checks=checks, not_applicable=[])
(HERE / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
