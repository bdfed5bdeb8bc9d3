"""Writes MANIFEST.json: one check per property module present in vf/props."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {}
exec(open(os.path.join(HERE, "techniques.py")).read(), TECH)
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "vf", "props", i.lower() + ".py")):
        tech, note = TECH["T"][i]
        checks.append(
            {
                "property": i,
                "quick_cmd": "./check.sh %s --tier quick" % i,
                "thorough_cmd": "./check.sh %s --tier thorough" % i,
                "technique": "property-based testing: " + tech,
                "level": "exploration",
                "level_note": note + " " + TECH["COMMON"],
            }
        )
    else:
        na.append({"property": i, "reason": TECH["NA"].get(i, "check not built yet")})
json.dump(
    {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": TECH["NOTES"],
    },
    open(os.path.join(HERE, "MANIFEST.json"), "w"),
    indent=1,
)
