#!/usr/bin/env python3
import json,sys
r=json.load(open(sys.argv[1]))
print(r["what"][:3000]); d=r.get("detail")
print(d.get("pretty","") if isinstance(d,dict) else str(d)[:5000])
