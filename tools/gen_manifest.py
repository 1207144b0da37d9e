#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property table of the analyser and the not-applicable list."""
import json,os,subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call(["bash",V+"/setup.sh"])
checks=json.loads(subprocess.check_output([V+"/build/xpxcheck","manifest"]))
checks.sort(key=lambda c:c["id"])
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
NA=json.load(open(V+"/tools/not_applicable.json"))
claimed={c["id"] for c in checks}
na=[]
for i in ids:
    if i not in claimed:
        na.append({"property":i,"reason":NA.get(i,"the check for this property is not built yet")})
m={"version":1,"setup_cmd":"bash setup.sh",
 "hooks":{"guard":"none","enable":"the checks read /repo's source; no hooks are compiled in","source_commits":[]},
 "checks":[{"property":c["id"],"quick_cmd":"bash check.sh %s quick"%c["id"],"thorough_cmd":"bash check.sh %s thorough"%c["id"],
   "evidence_file":"evidence/%s.json"%c["id"],"technique":c["technique"],"level":c["level"],"level_note":c["note"]} for c in checks],
 "not_applicable":na,
 "notes":"See DESIGN.md. Every check is a static analysis of /repo's current source by the analyser in xpxcheck/."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
