"""Generated encoders (C29): struct types, the source codegen makes for them, and scripts that use both."""
import os, re, subprocess, shutil, json
from nodes import *
from gen_codec import ev, enc, dec, wire, lit, dby, CHS, COUNTS, HUGE

GO = {"bool": "bool", "str": "string", "u8": "uint8", "u16": "uint16", "u32": "uint32", "u64": "uint64", "i8": "int8", "i16": "int16", "i32": "int32", "i64": "int64",
      "f32": "float32", "f64": "float64", "vu": "uint", "vi": "int", "u24": "U24",
      "name": "chain.Name", "symbol": "chain.Symbol", "symcode": "chain.SymbolCode", "asset": "chain.Asset", "extasset": "chain.ExtendedAsset", "uint64": "chain.Uint64",
      "uint128": "chain.Uint128", "int128": "chain.Int128", "float128": "chain.Float128", "blocknum": "chain.BlockNum", "tp": "chain.TimePoint", "tps": "chain.TimePointSec",
      "bts": "chain.BlockTimestamp", "c160": "chain.Checksum160", "c256": "chain.Checksum256", "c512": "chain.Checksum512", "cbytes": "chain.Bytes", "blob": "chain.Blob",
      "perm": "chain.PermissionLevel", "action": "chain.Action", "txhdr": "chain.TransactionHeader", "txext": "chain.TransactionExtension", "tx": "chain.Transaction",
      "pubkey": "chain.PublicKey", "sig": "chain.Signature"}
PRIMS = ["bool", "str", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "vu", "vi"]
OWN = [k for k in GO if k not in PRIMS]

def gotype(t):
    k = t["t"]
    if k == "ptr": return "*" + gotype(t["e"][0])
    if k == "slice": return "[]" + gotype(t["e"][0])
    if k == "array": return "[%d]%s" % (t["n"], gotype(t["e"][0]))
    if k == "bytes": return "[]byte"
    if k == "struct": return "Gen%d" % t["gen"]
    return GO[k]

def godef(i, t):
    fs = ["\tF%d %s%s" % (j, gotype(f), ' `eosio:"optional"`' if f["g"] == "optional" else "") for j, f in enumerate(t["e"])]
    return "type Gen%d struct {\n%s\n}\n" % (i, "\n".join(fs))

def wrap(r, base, w):
    if w == "slice": return T("bytes") if base["t"] == "u8" else slc(base)
    if w == "array": return arr(r.choice([0, 1, 2, 3, 4, 10]), base)
    if w == "ptr": return ptr(base)
    if w == "opt": return tag(ptr(base), "optional")
    if w == "ptrslice": return ptr(wrap(r, base, "slice"))
    if w == "optslice": return tag(ptr(wrap(r, base, "slice")), "optional")
    if w == "ptrarray": return ptr(wrap(r, base, "array"))
    if w == "optarray": return tag(ptr(wrap(r, base, "array")), "optional")
    return base

WR = ["", "slice", "array", "ptr", "opt"]
WR2 = WR * 3 + ["ptrslice", "optslice", "ptrarray", "optarray"]

def structs(r, n):
    out = []
    def add(fs):
        t = struct(*fs); t["gen"] = len(out) + 1; out.append(t)
    add([])
    # every kind under every wrapper, a few per struct so that one failure does not hide others
    combos = [(k, w) for k in PRIMS + OWN for w in WR]
    for k, w in combos: add([wrap(r, T(k), w)])
    while len(out) < n:
        fs = []
        for _ in range(r.choice([1, 2, 3, 4, 5, 8])):
            c = r.random()
            if c < .15: base = r.choice(out)
            elif c < .6: base = T(r.choice(PRIMS))
            else: base = T(r.choice(OWN))
            fs.append(wrap(r, base, r.choice(WR2)))
        if sum(size(f) for f in fs) > 60: continue
        add(fs)
    return out

def size(t): return 1 + sum(size(x) for x in t["e"])
def deps(t): return ({t["gen"]} if t.get("gen") else set()).union(*[deps(x) for x in t["e"]]) if t["e"] or t.get("gen") else set()

HEAD = 'package main\n\nimport (\n\t"errors"\n\n\t"github.com/greymass/go-eosio/pkg/abi"\n\t"github.com/greymass/go-eosio/pkg/chain"\n)\n\nvar _ = errors.New\nvar _ *abi.Encoder\nvar _ chain.Name\n\n'

def run(cmd, d, env, timeout=600):
    return subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, errors="replace", timeout=timeout)

def prepare(r, n, scratch, chk):
    """returns (recorded sessions, scripts); leaves the generated types beside the driver"""
    ts = structs(r, 250 if chk.TIER != "thorough" else 1200)
    # stage 1: ask codegen for the source of every type
    d = os.path.join(scratch, "stage1"); os.makedirs(d)
    for f in ("go.mod", "go.sum"):
        p = os.path.join(chk.VERIF, "driver", f)
        if os.path.exists(p): shutil.copy(p, d)
    body = "package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\n\t\"github.com/greymass/go-eosio/pkg/chain\"\n\t\"github.com/greymass/go-eosio/pkg/codegen\"\n)\n\nvar _ chain.Name\n\ntype U24 uint32\n\n"
    body += "\n".join(godef(t["gen"], t) for t in ts)
    body += '\nfunc gen(i int, v interface{}) {\n\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\tjson.NewEncoder(os.Stdout).Encode([]interface{}{i, false, fmt.Sprint(r)})\n\t\t}\n\t}()\n\tjson.NewEncoder(os.Stdout).Encode([]interface{}{i, true, codegen.GenUnmarshalFn(v)})\n}\n\nfunc main() {\n'
    body += "".join("\tgen(%d, Gen%d{})\n" % (t["gen"], t["gen"]) for t in ts) + "}\n"
    open(os.path.join(d, "main.go"), "w").write(body)
    p = run(["go", "run", "."], d, chk.ENV)
    if p.returncode: raise chk.CheckError("stage 1 does not build or run:\n" + p.stderr[-3000:])
    src, bad = {}, {}
    for line in p.stdout.splitlines():
        i, ok, text = json.loads(line)
        if ok: src[i] = text
        else: bad[i] = "codegen panicked: " + text
    # stage 2: compile it beside the driver
    dst = os.path.join(scratch, "driver")
    if not os.path.isdir(dst): shutil.copytree(os.path.join(chk.VERIF, "driver"), dst)
    for t in ts:
        i = t["gen"]
        with open(os.path.join(dst, "gen_%d.go" % i), "w") as f: f.write(HEAD + godef(i, t) + src.get(i, ""))
    good = [t for t in ts if t["gen"] not in bad]
    for _ in range(20):
        with open(os.path.join(dst, "gen_reg.go"), "w") as f:
            f.write('package main\n\nimport "reflect"\n\nfunc init() {\n' + "".join("\tgenTypes[%d] = reflect.TypeOf(Gen%d{})\n" % (t["gen"], t["gen"]) for t in good) + "}\n")
        p = run(["go", "build", "-gcflags=-e", "-o", os.path.join(scratch, "probe"), "."], dst, chk.ENV)
        if p.returncode == 0: break
        hit = {int(x) for x in re.findall(r"gen_(\d+)\.go:", p.stderr)}
        if not hit: raise chk.CheckError("stage 2 does not build:\n" + p.stderr[-3000:])
        for i in hit:
            if i not in bad: bad[i] = "generated source does not compile: " + "; ".join(l for l in p.stderr.splitlines() if "gen_%d.go" % i in l)[:500]
            with open(os.path.join(dst, "gen_%d.go" % i), "w") as f: f.write(HEAD + godef(i, ts[i - 1]))     # without methods, for types that contain it
        good = [t for t in good if not deps(t) & set(bad)]
    else: raise chk.CheckError("stage 2 keeps failing")
    sessions = []
    for t in ts:
        o = {"out": "err", "msg": bad[t["gen"]]} if t["gen"] in bad else {"out": "ok"}
        sessions.append([{"op": "gen", "t": t, "o": o}])
    return sessions, scripts(r, n, good)

def small(v): return len(json.dumps(v)) < 300

def plain(t):
    t = {k: v for k, v in t.items() if k != "gen"}
    t["e"] = [plain(x) for x in t["e"]]
    return t

def scripts(r, n, good):
    out = []
    if not good: return out
    g, gb = G(r, big=True), G(r, bad=.15)
    order = good[:]
    lists = [t for t in good if len(t["e"]) == 1 and t["e"][0]["t"] == "slice" and minsize(t["e"][0]["e"][0]) > 0 and t["e"][0]["e"][0]["t"] not in ("f32", "f64", "struct")]
    for t in lists:              # many elements
        k = r.choice(COUNTS)
        v = g.val(t["e"][0]["e"][0])
        if k < 1000 or small(v): out.append([ev("huge", t=t, v=v, form="gen", n=k, path=r.choice(["chain", "plain", "decl"]))])
    for t in good:               # announced but not there
        f = t["e"][0] if len(t["e"]) == 1 else T("u8")
        pre = []
        if f["t"] == "ptr": pre, f = ([1] if f["g"] == "optional" else []), f["e"][0]
        if f["t"] not in ("slice", "bytes", "str", "cbytes", "blob") or not elems_nonempty(t): continue
        b = pre + r.choice(HUGE) + [r.randrange(256) for _ in range(r.randrange(6))]
        out.append([lit(b), dec(t, 0, "chain", "ptr", True), lit(b), dec(plain(t), 0, "chain", "ptr", True)])
    r.shuffle(out)
    n += len(out)
    while len(out) < n:
        t = order[len(out) % len(order)] if len(out) < 2 * len(order) else r.choice(good)
        p = plain(t)
        c = len(out) // len(order) if len(out) < 2 * len(order) else r.randrange(5)
        path = r.choice(["chain", "plain", "decl"])
        if c == 0:       # round trip, both ways round, same bytes
            v = g.val(t)
            out.append([enc(t, v, path, r.choice(["val", "ptr", "marsh"])), enc(p, v, path), enc(t, v, "chain", "val"), wire(ch=r.choice(CHS)), dec(p, 0, path), dec(t, 1, path, r.choice(["ptr", "marsh"])), dec(t, 2), ev("look", t=t, sl=1), ev("encs", t=t, sl=1, path="chain", by="val")])
        elif c == 1:     # into a used variable
            s = [ev("poke", t=t, v=g.val(t), sl=1)]
            vs = [g.val(t) for _ in range(3)]
            s += [enc(t, v) for v in vs] + [wire()] + [dec(t, 1, path) for _ in vs] + [ev("look", t=t, sl=1)]
            if minsize(t) > 0 and elems_nonempty(t): s += [enc(t, vs[0]), wire(cut=r.randrange(100, 990)), dec(t, 1), dec(t, 1), dec(t, 1)]
            out.append(s)
        elif c == 2:     # truncated and corrupted
            if not elems_nonempty(t): out.append([enc(t, gb.val(t)), enc(p, gb.val(t))]); continue
            s = [enc(t, g.val(t)), ev("cuts", t=t, src="wire", en=r.choice(["eof", "err"]), path=path, by="ptr", max=20, ch=r.choice(CHS))]
            fl = [[r.randrange(1 << 16), r.randrange(1, 256)]]
            s += [wire(fl=fl), dec(t, 0, path, "ptr", True), wire(fl=fl), dec(p, 0, path, "ptr", True)]
            out.append(s)
        elif c == 3:     # nil pointers
            v = gb.val(t)
            out.append([enc(t, v, path, r.choice(["val", "ptr", "marsh"])), enc(p, v, path), enc(t, gb.val(t), path)])
        else:
            out.append([ev("faults", t=t, v=g.val(t), path=path, by=r.choice(["val", "marsh"]), max=20, short=r.random() < .5, once=r.random() < .6)])
    return out
