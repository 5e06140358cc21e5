#!/opt/venv/bin/python
"""Write MANIFEST.json from the registry."""

import json
import pathlib
import sys

sys.dont_write_bytecode = True
from vf import registry  # noqa: E402

root = pathlib.Path(__file__).parent
props = [json.loads(x) for x in (root / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        tech, note = registry.NOTES.get(i, (None, None))
        checks.append(
            {
                "property": i,
                "quick_cmd": f"VERIF_TIER=quick ./run.sh {i}",
                "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                "evidence_file": f"evidence/{i}.json",
                "technique": tech or registry.TECHNIQUE,
                "level": "model_checking",
                "level_note": note or registry.NOTE,
            }
        )
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "not built yet")})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ specifications in tla/, harness in vf/. No hooks in /repo: only its public interface is used.",
}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not claimed")
