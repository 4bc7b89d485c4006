#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.json and properties.jsonl."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
cf=here+"/tools/checks.json"
checks=json.load(open(cf)) if os.path.exists(cf) else {}
m={"version":1,"setup_cmd":"bash run.sh setup","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in checks:
        c=checks[i]
        m["checks"].append({"property":i,"quick_cmd":f"bash run.sh check {i} quick","thorough_cmd":f"bash run.sh check {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":c["technique"],"level":"exploration","level_note":c["note"]})
    else:
        m["not_applicable"].append({"property":i,"reason":"not built yet"})
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1)
