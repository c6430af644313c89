#!/usr/bin/env python3
"""Write MANIFEST.json from lib/props.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "lib"))
import props
checks = []
for p, c in sorted(props.CHECKS.items()):
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "technique": props.TECHNIQUE[p], "level": c.level, "level_note": props.NOTE[p]})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: the monitors sit at the serde interfaces. Each check builds what it needs from /repo's tree."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
