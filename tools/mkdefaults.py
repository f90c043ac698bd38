#!/usr/bin/env python3
"""One-off, like mklayout.py: the default values of fields, pinned in specs/defaults.json in the shape of specs/TagCodec.tla."""
import json,os,re,struct,math
SRC="/repo/src/ringhopper-definitions/json"
L=json.load(open("/verif/specs/layout.json"))
def matcher(s):
    s=re.sub(r"[- ]","_",s); s=re.sub(r"['\"()]","",s); return s.lower()
out={}
for d,_,fs in sorted(os.walk(SRC)):
    for f in sorted(fs):
        if not f.endswith(".json"): continue
        for o in json.load(open(os.path.join(d,f))):
            for x in o.get("fields",[]):
                if not(isinstance(x,dict) and "default" in x): continue
                if x.get("exclude") or o.get("exclude"): continue
                n=matcher(x["name"]); fld=next(y for y in L["structs"][o["name"]]["fields"] if y["n"]==n)
                v=x["default"]; v=v if isinstance(v,list) else [v]
                t=x["type"]
                enc=[list(struct.pack(">f",math.radians(c) if t=="Angle" else c) if t in("float","Angle","ColorRGBFloat") else struct.pack(">H",c)) for c in v]
                k=len(fld["w"])
                val=enc if fld["form"]=="one" else [enc[i*k:(i+1)*k] for i in range(fld["cnt"])]
                assert len(enc)==k*fld["cnt"],(o["name"],n)
                out.setdefault(o["name"],{})[n]=val
json.dump(out,open("/verif/specs/defaults.json","w"),separators=(",",":"),sort_keys=True)
print(sum(map(len,out.values())))
