#!/usr/bin/env python3
"""Rewrites the "fixed" entries of known_findings.json from the fix commits in /repo."""
import json, subprocess, os
P = {
 "543c625":"C20","8a63c22":"C21","16867c3":"C12","2c7fe17":"C21","d19c8a1":"C21","d8481fa":"C21","d2bc3f7":"C21","f80057b":"C21",
 "975e503":"C21","4f4f59f":"C19","ed18715":"C18","ffa15a8":"C08","2c3d813":"C08","46e22d5":"C09","dfbbb7c":"C09","1b8a51b":"C09",
 "32c30f3":"C09","f1e6381":"C09","d2788ba":"C09","27e3557":"C09","f94c081":"C09","1c13da6":"C09","05bf518":"C08","b6205e8":"C28",
 "a7d7a19":"C12","5b2541f":"C13","a3ce4ea":"C08","168ed22":"C10","90e7207":"C10","aa90563":"C10","7d2d85b":"C10","90dff2b":"C10",
 "33518e8":"C10","66a8bf2":"C07","e44474e":"C02","126cbcf":"C01","c38c06c":"C01","50fed2b":"C01","84d4b7c":"C01","c558fcd":"C01",
 "7e07c50":"C10","514234c":"C03","2d3cb41":"C03","05cf37e":"C01",
}
EXTRA = os.path.join(os.path.dirname(__file__), "fixed_properties.json")
if os.path.exists(EXTRA):
    P.update(json.load(open(EXTRA)))
log = subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s","936457d..HEAD"],capture_output=True,text=True,check=True).stdout.splitlines()
path="/verif/known_findings.json"
old=[e for e in (json.load(open(path)) if os.path.exists(path) else []) if e.get("status")!="fixed"]
new=[]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    what=s[5:]
    new.append({"status":"fixed","property":P[h],"signature":f"fixed: property={P[h]} {h} {what}","what":what})
json.dump(old+new,open(path,"w"),indent=1); open(path,"a").write("\n")
print(len(old),"open",len(new),"fixed")
