#!/usr/bin/env python3
"""One-off: turns ringhopper's JSON tag definitions into the pinned layout the TLA+ codec specification reads.
The result (specs/layout.json) is committed: it is the specification of the tag format and is NOT regenerated by
the checks (a change of the definitions that alters the on-disk format must be noticed)."""
import json,os,sys,re
SRC="/repo/src/ringhopper-definitions/json"
objs={};groups={};engines={}
for d,_,fs in sorted(os.walk(SRC)):
    for f in sorted(fs):
        if not f.endswith(".json"): continue
        for o in json.load(open(os.path.join(d,f))):
            t=o["type"]
            if t=="group": groups[o["name"]]=o
            elif t=="engine": engines[o["name"]]=o
            else: objs[o["name"]]=o
W={"float":[4],"uint8":[1],"int8":[1],"uint16":[2],"int16":[2],"uint32":[4],"int32":[4],"Angle":[4],"Rectangle":[2]*4,
"Vector2D":[4]*2,"Vector3D":[4]*3,"CompressedVector2D":[4],"CompressedVector3D":[4],"CompressedFloat":[2],"Euler2D":[4]*2,"Euler3D":[4]*3,
"Plane2D":[4]*3,"Plane3D":[4]*4,"Quaternion":[4]*4,"Matrix3x3":[4]*9,"ColorRGBFloat":[4]*3,"ColorARGBFloat":[4]*4,"ColorARGBInt":[4],
"Address":[4],"Index":[2],"Vector2DInt":[2]*2,"TagID":[4],"ID":[4],"ScenarioScriptNodeValue":[4]}
def matcher(s):
    s=re.sub(r"[- ]","_",s); s=re.sub(r"['\"()]","",s); return s.lower()
def snake(p):
    r="";last='A'
    for c in p:
        if c.isupper() and not last.isupper(): r+="_"
        last=c; r+=c.lower()
    return r
def flags(o,parent=None):
    g=lambda k:bool(o.get(k)) or bool(parent and parent.get(k))
    return g
out={"structs":{},"enums":{},"bitfields":{},"groups":{}}
FOUR=dict(re.findall(r'\("([^"]+)", TagGroup::\w+, (0x[0-9A-F]+)\)',open("/repo/src/ringhopper-primitives/src/primitive/group.rs").read()))
FLAGKEYS=["cache_only","non_cached","exclude","little_endian","read_only","shifted_by_one"]
for n,o in objs.items():
    if o["type"]=="enum":
        out["enums"][n]=[ (matcher(x) if isinstance(x,str) else matcher(x["name"])) if not(isinstance(x,dict) and x.get("exclude")) else "" for x in o["options"]]
    elif o["type"]=="bitfield":
        fs=[]
        for x in o["fields"]:
            d={"n":matcher(x if isinstance(x,str) else x["name"]),"c":bool(isinstance(x,dict) and x.get("cache_only")),"x":bool(isinstance(x,dict) and x.get("exclude"))}
            if isinstance(x,dict) and x.get("non_cached"): d["nc"]=True
            fs.append(d)
        out["bitfields"][n]={"bytes":o["width"]//8,"fields":fs}
for n,o in objs.items():
    if o["type"]!="struct": continue
    fs=list(o["fields"]); 
    res=[]
    if "inherits" in o: res.append({"n":snake(o["inherits"]),"k":"struct","s":o["inherits"],"cnt":1,"form":"one","c":False,"x":False,"ro":False,"le":False})
    for f in fs:
        t=f["type"]
        if t=="editor_section": continue
        if t=="pad": res.append({"n":"","k":"pad","cnt":1,"form":"one","w":[f["size"]],"c":False,"x":False,"ro":False,"le":False}); continue
        d={"n":matcher(f["name"]),"cnt":1,"form":"one"}
        if f.get("bounds"): d["cnt"]=2;d["form"]="bounds"
        elif "count" in f: d["cnt"]=f["count"];d["form"]="array"
        g=lambda k:bool(f.get(k) or o.get(k))
        d["c"]=g("cache_only"); d["x"]=g("exclude"); d["ro"]=g("read_only"); d["le"]=g("little_endian")
        if g("non_cached"): d["nc"]=True
        if g("shifted_by_one"): d["sh"]=True
        if t=="Reflexive": d["k"]="refl"; d["s"]=f["struct"]
        elif t=="TagReference": d["k"]="ref"; d["g"]=f["groups"]
        elif t=="TagGroup": d["k"]="group"
        elif t in("Data","FileData","BSPVertexData","UTF16String"): d["k"]="data"; d["t"]=t
        elif t=="String32": d["k"]="str32"
        elif t in W: d["k"]="prim"; d["w"]=W[t]; d["t"]=t
        elif objs[t]["type"]=="enum": d["k"]="enum"; d["s"]=t
        elif objs[t]["type"]=="bitfield": d["k"]="bits"; d["s"]=t
        else: d["k"]="struct"; d["s"]=t
        res.append(d)
    out["structs"][n]={"size":o["size"],"fields":res}
for n,g in groups.items():
    out["groups"][n]={"struct":g["struct"],"version":g["version"],"up":g.get("supergroup") or ("model" if n=="gbxmodel" else "")}
out["fourcc"]={k:[int(v[2+2*i:4+2*i],16) for i in range(4)] for k,v in FOUR.items()}
# size check
def sz(f):
    k=f["k"]
    b={"refl":12,"ref":16,"group":4,"data":20,"str32":32,"enum":2}.get(k)
    if k in("prim","pad"): b=sum(f["w"])
    if k=="bits": b=out["bitfields"][f["s"]]["bytes"]
    if k=="struct": b=out["structs"][f["s"]]["size"]
    return b*f["cnt"]
for n,s in out["structs"].items():
    assert sum(map(sz,s["fields"]))==s["size"],n
json.dump(out,open("/verif/specs/layout.json","w"),separators=(",",":"),sort_keys=True)
print(len(out["structs"]),len(out["groups"]),len(FOUR), os.path.getsize("/verif/specs/layout.json"))
