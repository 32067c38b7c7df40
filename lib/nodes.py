"""Type and value nodes (see spec/Wire.tla) and random generators for them."""

def T(t, n=0, e=(), g=""):
    return {"t": t, "n": n, "e": list(e), "g": g}

def ptr(t): return T("ptr", e=[t])
def slc(t): return T("slice", e=[t])
def arr(n, t): return T("array", n, [t])
def mapt(k, v): return T("map", e=[k, v])
def struct(*f): return T("struct", e=f)
def tag(t, g):
    r = dict(t); r["g"] = g
    return r

def V(k, b=(), e=()):
    return {"k": k, "b": list(b), "e": list(e)}

NIL = V("nil")

def num(x):
    m = abs(x)
    return V("m" if x < 0 else "n", m.to_bytes((m.bit_length() + 7) // 8, "big"))

def unnum(v):
    m = int.from_bytes(bytes(v["b"]), "big")
    return -m if v["k"] == "m" else m

U = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "nu32": 32, "nu64": 64, "u24": 24,
     "name": 64, "symbol": 64, "symcode": 64, "uint64": 64, "uint128": 128, "blocknum": 32,
     "tps": 32, "bts": 32, "u16x": 16, "namex": 64, "f32": 32, "f64": 64}
S = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "ni32": 32, "ni64": 64, "tp": 64, "int128": 128}
RAW = {"c160": 20, "c256": 32, "c512": 64, "float128": 16}
LEN = ["str", "bytes", "cbytes", "blob"]
PRIM = ["bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "vu", "vi", "str", "bytes"]
NAMED = ["nu64", "nu32", "ni64", "ni32", "u24"]
CHAINLEAF = ["name", "symbol", "symcode", "uint64", "uint128", "int128", "float128", "blocknum", "tp", "tps", "bts",
             "c160", "c256", "c512", "cbytes", "blob", "pubkey", "sig"]
CHAINREC = {
    "perm": [T("name"), T("name")],
    "action": [T("name"), T("name"), slc(T("perm")), T("cbytes")],
    "txhdr": [T("tps"), T("u16"), T("u32"), T("vu"), T("u8"), T("vu")],
    "txext": [T("u16"), T("cbytes")],
    "tx": [T("txhdr"), slc(T("action")), slc(T("action")), slc(T("txext"))],
    "asset": [T("i64"), T("symbol")],
    "extasset": [T("asset"), T("name")],
    "abitype": [T("str"), T("str")],
    "abifield": [T("str"), T("str")],
    "abiclause": [T("str"), T("str")],
    "abistruct": [T("str"), T("str"), slc(T("abifield"))],
    "abiaction": [T("name"), T("str"), T("str")],
    "abitable": [T("name"), T("str"), slc(T("str")), slc(T("str")), T("str")],
    "abiext": [T("u16"), T("cbytes")],
    "abierr": [T("uint64"), T("str")],
    "abivariant": [T("str"), slc(T("str"))],
    "abi": [T("str"), slc(T("abitype")), slc(T("abistruct")), slc(T("abiaction")), slc(T("abitable")),
            slc(T("abiclause")), slc(T("abierr")), slc(ptr(T("abiext"))), tag(slc(T("abivariant")), "extension")],
}
CHAINREC.update({       # user-defined Go types of the driver
    "list": [T("u8"), tag(ptr(T("list")), "optional")],
    "tree": [T("u16"), slc(T("tree"))],
    "rvar": [tag(struct(ptr(T("u8")), ptr(T("rvar")), ptr(slc(T("rvar")))), "variant")],
    "rmap": [mapt(T("u8"), T("rmap"))],
    "emb": [T("u8"), T("str")],
    "twina": [T("u8"), tag(ptr(T("u16")), "optional"), T("str")],
    "twinb": [tag(ptr(T("u16")), "optional"), T("u8"), T("bytes")],
    "nest": [T("emb"), slc(T("u16")), arr(2, T("u32")), mapt(T("str"), T("u8")), tag(ptr(T("emb")), "optional"),
             slc(ptr(T("emb"))), T("u24"), slc(slc(T("u24")))],
})
USER = ["list", "tree", "rvar", "rmap", "emb", "nest", "twina", "twinb"]
RECUR = {"list": .8, "tree": .45, "rvar": .45, "rmap": .45}       # chance of going one level down
CHAIN = CHAINLEAF + [k for k in CHAINREC if not k.startswith("abi") and k not in USER]
MAPKEYS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "str", "name", "nu64", "nu32", "ni64", "ni32", "uint64",
           "symbol", "blocknum", "tp", "vu", "vi", "bool", "u24"]

def bits(r, n):
    """an n-bit unsigned number with a bias towards boundaries"""
    c = r.random()
    if c < .15: return 0
    if c < .25: return (1 << n) - 1
    if c < .55:
        k = r.randrange(n + 1)
        return max(0, min((1 << n) - 1, (1 << k) + r.choice([-1, 0, 1])))
    if c < .75: return r.getrandbits(r.randrange(1, n + 1))
    return r.getrandbits(n)

def bytestr(r, big=False):
    c = r.random()
    if c < .15: n = 0
    elif c < .8: n = r.randrange(1, 12)
    elif c < .95 or not big: n = r.randrange(12, 40)
    else: n = r.choice([127, 128, 129, 255, 256, 300])
    c = r.random()
    if c < .5: return [r.randrange(97, 123) for _ in range(n)]
    if c < .6: return [0] * n
    return [r.randrange(256) for _ in range(n)]

def varlen(n):
    o = []
    while n >= 128:
        o.append(n % 128 + 128); n //= 128
    return o + [n]

def key(r, kind):
    kt = r.choice([0, 0, 1, 2])
    d = lambda n: [r.randrange(256) for _ in range(n)]
    if kind == "pubkey":
        if kt < 2: return [kt] + d(33)
        s = bytestr(r, True)
        return [kt] + d(34) + varlen(len(s)) + s
    if kt < 2: return [kt] + d(65)
    s, u = bytestr(r, True), bytestr(r, True)
    return [kt] + d(65) + varlen(len(s)) + s + varlen(len(u)) + u

class G:
    """random values; bad = probability of an unencodable spot"""
    def __init__(self, r, bad=0.0, big=False, wide=False):
        self.r, self.bad, self.big, self.wide = r, bad, big, wide

    def count(self):
        c = self.r.random()
        if c < .2: return 0
        if c < .9 or not self.big: return self.r.randrange(1, 4)
        return self.r.choice([5, 9, 17, 127, 128, 129])

    def val(self, t, small=False):
        r = self.r
        k, g = t["t"], t["g"]
        if g == "optional":
            if r.random() < .45: return zero(tag(t, ""))
            return self.val(tag(t, ""))
        if g == "extension":
            return self.val(tag(t, ""))
        if g == "variant":
            st = t["e"][0] if k == "ptr" else t
            if r.random() < self.bad:
                if len(st["e"]) > 1 and r.random() < .5:
                    return V("v", [0, 1], [self.val(st["e"][0]["e"][0]), self.val(st["e"][1]["e"][0])])
                return V("v")
            i = r.randrange(len(st["e"]))
            return V("v", [i], [self.val(st["e"][i]["e"][0])])
        if k == "bool": return num(r.randrange(2))
        if k == "f32": return num(r.choice([0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffffffff, 1, 0x3f800000, bits(r, 32), bits(r, 32)]))
        if k == "f64": return num(r.choice([0, 1 << 63, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, (0x7ff << 52) + 1, (1 << 64) - 1, 1, bits(r, 64), bits(r, 64)]))
        if k in U: return num(bits(r, U[k]))
        if k in S:
            x = bits(r, S[k])
            return num(x - (1 << S[k]) if x >> (S[k] - 1) else x)
        if k == "vu":
            if r.random() < self.bad: return num((1 << 32) + bits(r, 31))
            return num(bits(r, 32))
        if k == "vi":
            x = bits(r, 32); x = x - (1 << 32) if x >> 31 else x
            if r.random() < self.bad: return num(r.choice([(1 << 31) + bits(r, 20), -(1 << 31) - 1 - bits(r, 20)]))
            return num(x)
        if k in LEN: return V("s", bytestr(r, self.big))
        if k in RAW: return V("s", [r.randrange(256) for _ in range(RAW[k])])
        if k in ("pubkey", "sig"): return V("key", key(r, k))
        if k in ("ptr", "any"):
            if r.random() < self.bad: return NIL
            return self.val(t["e"][0])
        if k == "slice":
            n = self.count()
            if n > 8 and t["e"][0]["t"] not in PRIM: n = 3
            return V("q", (), [self.val(t["e"][0]) for _ in range(n)])
        if k == "array": return V("q", (), [self.val(t["e"][0]) for _ in range(t["n"])])
        if k == "map":
            n = self.count(); ps, seen = [], set()
            if n > 8 and t["e"][1]["t"] not in PRIM: n = 3
            if self.wide: n = max(n, r.randrange(2, 7))
            for _ in range(n):
                kk = self.val(t["e"][0])
                if t["e"][0]["t"] in ("vu", "vi") and abs(unnum(kk)) >> 31: continue
                s = (kk["k"], tuple(kk["b"]))
                if s in seen: continue
                seen.add(s); ps.append(V("q", (), [kk, self.val(t["e"][1])]))
            return V("q", (), ps)
        if k == "struct": return V("q", (), [self.val(f) for f in t["e"]])
        if k in RECUR: return self.recur(k, 0)
        if k == "rawb": return V("s", [r.randrange(256) for _ in range(t["n"])])
        if k in CHAINREC: return V("q", (), [self.val(f) for f in CHAINREC[k]])
        raise Exception(k)

    def recur(self, k, d):
        r = self.r
        go = d < 24 and r.random() < RECUR[k]
        if k == "list": return V("q", (), [num(bits(r, 8)), self.recur(k, d + 1) if go else NIL])
        n = r.randrange(1, 4) if go else 0
        if k == "tree": return V("q", (), [num(bits(r, 16)), V("q", (), [self.recur(k, d + 1) for _ in range(n)])])
        if k == "rmap":
            ks = r.sample([0, 1, 2, 127, 128, 255], n)
            return V("q", (), [V("q", (), [V("q", (), [num(x), self.recur(k, d + 1)]) for x in ks])])
        if not go: i, x = r.choice([(0, num(bits(r, 8))), (2, V("q"))])
        elif r.random() < .5: i, x = 1, self.recur(k, d + 1)
        else: i, x = 2, V("q", (), [self.recur(k, d + 1) for _ in range(n)])
        return V("q", (), [V("v", [i], [x])])

def zero(t):
    k, g = t["t"], t["g"]
    if g == "variant" and k == "struct": return V("v")
    if k in U or k in S or k in ("bool", "vu", "vi"): return num(0)
    if k in LEN: return V("s")
    if k in RAW: return V("s", [0] * RAW[k])
    if k in ("pubkey", "sig"): return V("key", [0])
    if k in ("ptr", "any"): return NIL
    if k in ("slice", "map"): return V("q")
    if k == "rawb": return V("s", [0] * t["n"])
    if k == "array": return V("q", (), [zero(t["e"][0])] * t["n"])
    if k == "struct": return V("q", (), [zero(f) for f in t["e"]])
    return V("q", (), [zero(f) for f in CHAINREC[k]])

class TG:
    """random types"""
    def __init__(self, r, leaves=None, variants=True, exts=False, ptrs=True, maps=True, optionals=True, anys=False):
        self.anys = anys       # interfaces: can be encoded only
        self.r = r
        self.leaves = leaves or (PRIM * 2 + NAMED + CHAIN + USER)
        self.variants, self.exts, self.ptrs, self.maps, self.optionals = variants, exts, ptrs, maps, optionals

    def leaf(self):
        t = T(self.r.choice(self.leaves))
        if t["t"] in ("bytes", "cbytes", "blob") or t["t"] in CHAINREC: t["n"] = self.r.randrange(2)      # nil when empty
        return t

    def elem(self, d):
        t = self.any(d)
        if self.anys and self.r.random() < .2: t = T("any", e=[t])
        if self.ptrs and self.r.random() < .15: t = ptr(t)
        if self.ptrs and self.r.random() < .03: t = ptr(ptr(t))
        return t

    def any(self, d):
        r = self.r
        if d <= 0 or r.random() < .3: return self.leaf()
        c = r.random()
        if c < .45: return self.struct(d)
        if c < .7: return T("slice", r.randrange(2), [self.elem(d - 1)])
        if c < .82: return arr(r.randrange(0, 4), self.elem(d - 1)) if r.random() < .9 else arr(0, self.leaf())
        if c < .95 and self.maps:
            ks = [k for k in MAPKEYS if k in self.leaves or self.leaves is None] or ["u8", "str"]
            return T("map", r.randrange(2), [T(r.choice(ks)), self.elem(d - 1)])
        return slc(self.leaf())

    def struct(self, d, top=False):
        r = self.r
        fs = [self.field(d) for _ in range(r.randrange(1, 5))]
        if top and self.exts:
            for _ in range(r.randrange(1, 4)):
                t = self.any(d - 1)
                while minsize(t) == 0: t = self.any(d - 1)
                if t["t"] != "ptr" and r.random() < .6: t = ptr(t)
                fs.append(tag(t, "extension"))
        return struct(*fs)

    def field(self, d):
        r = self.r
        c = r.random()
        if c < .18 and self.optionals:
            if r.random() < .75 and self.ptrs: return tag(ptr(self.any(d - 1)), "optional")
            t = T(r.choice([x for x in self.leaves if x not in ("f32", "f64") and (x in U or x in S or x in ("bool", "str", "vu", "vi"))] or ["u8"]))
            return tag(t, "optional")
        if c < .3 and self.variants:
            st = struct(*[ptr(self.any(d - 1)) for _ in range(r.randrange(1, 4))])
            if r.random() < .3: return tag(ptr(st), "variant")
            return tag(st, "variant")
        return self.elem(d - 1)

def minsize(t):
    """least number of bytes a value of t occupies"""
    k, g = t["t"], t["g"]
    if g in ("optional", "variant"): return 1
    if g == "extension": return 0
    if k == "array": return t["n"] * minsize(t["e"][0])
    if k == "ptr": return minsize(t["e"][0])
    if k == "struct": return sum(minsize(f) for f in t["e"])
    return 1

def elems_nonempty(t):
    k = t["t"]
    if k in ("slice", "map"):
        if sum(minsize(x) for x in t["e"]) == 0: return False
    return all(elems_nonempty(x) for x in t["e"])
