"""show.py REPLAY: print the last event of a replay file compactly"""
import json, sys
def sh(t):
    k=t["t"]; g=("@"+t["g"]) if t["g"] else ""
    a=",".join(sh(x) for x in t["e"])
    return k+(str(t["n"]) if k=="array" else "")+("("+a+")" if a else "")+g
def sv(v):
    if v["k"] in("n","m"): return ("-" if v["k"]=="m" else "")+hex(int.from_bytes(bytes(v["b"]),"big"))
    if v["k"]=="q": return "["+",".join(map(sv,v["e"]))+"]"
    if v["k"]=="v": return "v%s<%s>"%(v["b"],",".join(map(sv,v["e"])))
    if v["k"]=="nil": return "nil"
    return v["k"]+bytes(v["b"]).hex()
d=json.load(open(sys.argv[1]))
for e in d["session"][-3:]:
    print({k:v for k,v in e.items() if k not in("t","v","o")}, sh(e["t"]) if "t" in e else "")
    if "v" in e: print("  v =",sv(e["v"]))
    o=e["o"]
    for x in [o]+(o.get("rs") or []):
        y=dict(x); y.pop("rs",None)
        for k in("b","d","s"):
            if isinstance(y.get(k),list): y[k]=bytes(y[k]).hex()
        if "va" in y: y.pop("va")
        if isinstance(y.get("v"),dict): y["v"]=sv(y["v"])
        print("   ",y)
