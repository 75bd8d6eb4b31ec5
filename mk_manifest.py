#!/usr/bin/env python3
# Writes MANIFEST.json from the table below.
import json
HOOK="1e1b7e6ad"
T={}
def c(id,technique,note,level="exploration"): T[id]=(technique,note,level)
exec(open('/verif/manifest_table.py').read())
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
import subprocess
h=subprocess.check_output(['git','-C','/repo','log','--format=%H %s']).decode().splitlines()
hooks=[l.split()[0] for l in h if 'cfg jubako_verif' in l]
m={"version":1,"setup_cmd":"./setup.sh",
 "hooks":{"guard":"jubako_verif","enable":"RUSTFLAGS=\"--cfg jubako_verif\" (build.sh)","source_commits":hooks},
 "checks":[{"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough",
   "technique":T[p][0],"level":T[p][2],"level_note":T[p][1]} for p in props if p in T],
 "not_applicable":[{"property":p,"reason":"monitor not built yet"} for p in props if p not in T]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False); open('/verif/MANIFEST.json','a').write('\n')
