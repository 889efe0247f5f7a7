#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of claimed checks.
import json
ids=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
EX="bounded exhaustive enumeration on the real code against an independent reference model"
SCH="stateless model checking of the real code under a controlled scheduler (preemption bounded DFS, virtual time)"
EV="explicit exploration of all event sequences on the real code with a modelled network"
N={"in":"Complete within the stated bounds of the input space; trusts the layout tables written from the protocol documents (mc/codecs) and the Go runtime."}
claims={}
def c(ids,pkg,tech,level,note):
    for i in ids.split(): claims[i]=(pkg,tech,level,note)
c("P01 P02 P03 P04 P06 P07 P08","codecs",EX,"exploration",N["in"])
c("P05","codecs","exhaustive enumeration of truncations and octet faults on the real decoders","fault_enumeration",N["in"])
exec(open('/verif/tools/claims.py').read()) if __import__('os').path.exists('/verif/tools/claims.py') else None
checks=[]
for i in ids:
    if i in claims:
        pkg,tech,level,note=claims[i]
        checks.append({"property":i,"quick_cmd":f"./run.sh {i} {pkg}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh {i} {pkg}","technique":tech,"level":level,"level_note":note})
na=[{"property":i,"reason":"the check is still being built"} for i in ids if i not in claims]
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False);open('/verif/MANIFEST.json','a').write("\n")
