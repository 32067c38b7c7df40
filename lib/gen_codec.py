"""Scripts for the typed codec (C01-C11, C16)."""
import json, random
from nodes import *

def ev(op, **k):
    d = {"op": op}; d.update(k); return d

def enc(t, v, path="chain", by="val", lim=-1, **k):
    if t["t"] == "rawb": by = "method"
    return ev("enc", t=t, v=v, path=path, by=by, lim=lim, **k)

def dec(t, sl=0, path="chain", by="ptr", meas=False):
    if t["t"] == "rawb": by = "method"
    return ev("dec", t=t, sl=sl, path=path, by=by, meas=meas)

def wire(en="eof", **k):
    return ev("open", src="wire", en=en, **k)

def lit(d, en="eof", **k):
    return ev("open", src="lit", d=list(d), en=en, **k)

PATHS = ["chain", "plain", "decl"]
BYS = ["val", "ptr", "value", "marsh", "method"]
DBYS = ["ptr", "value", "marsh", "method"]

def dby(r, t):
    if t["t"] == "rawb": return "method"
    # DecodeValue does not promise to handle bare primitives: only used on types it names
    if t["t"] in PRIM: return r.choice(["ptr", "method"])
    return r.choice(["ptr", "ptr", "marsh"])

def eby(r, t):
    if t["t"] == "rawb": return "method"
    if t["t"] in PRIM: return r.choice(["val", "ptr", "method"])
    return r.choice(["val", "val", "ptr", "marsh"])

def roundtrip(r, tvs, paths=PATHS):
    s = []
    for t, v in tvs: s.append(enc(t, v, r.choice(paths), eby(r, t)))
    s.append(wire())
    for t, v in tvs: s.append(dec(t, 0, r.choice(paths), dby(r, t)))
    return s

def rawb(r): return T("rawb", r.choice([0, 1, 1, 2, 7, 33, 200]))

# lengths around the sizes implementations buffer by
EDGES = [4095, 4096, 4097, 32768, 65535, 65536, 65537, 70000, 131073]

def longs(r, n):
    """sessions with long strings and byte strings, whole, in chunks and cut"""
    out = []
    for i in range(n):
        t = T(r.choice(["str", "bytes", "cbytes", "blob", "rawb"]), r.choice(EDGES))
        k = t["n"]
        v = V("s", [r.choice([0, 65, 255])] * (k - 2) + [1, 2])
        if t["t"] != "rawb": t["n"] = 0
        w = t
        if t["t"] in ("str", "cbytes") and r.random() < .4:
            w = struct(T("u8"), t, T("u16")) if t["t"] == "str" else T("txext")
            v = V("q", (), [num(7), v, num(513)] if t["t"] == "str" else [num(9), v])
        p, q = r.choice(PATHS), r.choice(PATHS)
        s = [enc(w, v, p, eby(r, w)), wire(ch=r.choice([[], [4096], [65536], [50000, 1], [100000]]), **{"with": r.random() < .5}), dec(w, 0, q, dby(r, w))]
        if r.random() < .5:
            s += [wire(cut=r.choice([1, 10, 500, 900, 998, 999]), ch=r.choice([[], [30000]]), en=r.choice(["eof", "err"])), dec(w, 0, q, dby(r, w))]
        out.append(s)
    return out

COUNTS = [127, 128, 129, 255, 256, 257, 16383, 16384, 16385, 65535, 65536, 65537]
def hugelen(r, n):
    """long strings and byte strings"""
    out = [[ev("huge", t=T(t), v=V("s", [r.choice([0, 65, 128, 255])]), form="len", n=k, path=r.choice(PATHS))]
           for t in ("str", "bytes", "cbytes", "blob") for k in COUNTS + [2097151, 2097152, 2097153]]
    r.shuffle(out)
    return out[:n]

def hugeslice(r, n):
    """long lists"""
    out = []
    for t, v in [(T("u8"), num(7)), (T("bool"), num(1)), (T("u16"), num(258)), (T("vu"), num(300)), (T("str"), V("s", [])), (T("str"), V("s", [97, 98])), (T("name"), num(77)), (T("nu64"), num(1 << 40)),
                 (T("ni32"), num(-2)), (slc(T("u8")), V("q", (), [])), (struct(T("u8"), T("str")), V("q", (), [num(3), V("s", [120])])), (T("tp"), num(5)), (T("u64"), num(9)), (ptr(T("u8")), num(4)), (ptr(ptr(T("u8"))), num(5)), (struct(ptr(ptr(T("u16"))), struct(T("u8"))), V("q", (), [num(4), V("q", (), [num(6)])]))]:
        for k in COUNTS + [2097152] * (t["t"] in ("bool", "vu")): out.append([ev("huge", t=t, v=v, form="slice", n=k, path=r.choice(PATHS))])
    r.shuffle(out)
    return out[:n]

def hugechain(r, n):
    """many authorizations, actions, transaction extensions"""
    act = V("q", (), [num(5), num(6), V("q", (), [V("q", (), [num(1), num(2)])]), V("s", [1, 2, 3])])
    out = [[ev("huge", t=t, v=v, form=f, n=k, path=r.choice(PATHS))] for k in COUNTS
           for f, t, v in (("auth", T("perm"), V("q", (), [num(1), num(2)])), ("cfa", T("action"), act), ("acts", T("action"), act), ("exts", T("txext"), V("q", (), [num(513), V("s", [7])])))]
    r.shuffle(out)
    return out[:n]

def huge(r, n):
    """one element very many times over"""
    out = hugelen(r, n // 3 + 1) + hugeslice(r, n // 3 + 1) + hugechain(r, n // 3 + 1)
    r.shuffle(out)
    return out[:n]

WIDE = [17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]

def widetv(r, g):
    """a type with very many parts, or very deep, and a value of it"""
    c, k = r.randrange(7), r.choice(WIDE)
    lf = lambda: T(r.choice(["u8", "u8", "u16", "bool", "str", "vu", "nu32", "name", "i8", "u24", "bytes"]))
    if c == 0: t = struct(*[lf() for _ in range(k)])
    elif c == 1: t = arr(k, lf())
    elif c == 2:        # a map with k entries
        kt = T(r.choice(["u16", "i16", "u32", "str", "name", "i64", "vu"]))
        seen = {}
        while len(seen) < k:
            x = [r.randrange(97, 123) for _ in range(r.randrange(1, 5))] if kt["t"] == "str" else None
            x = V("s", x) if x else num(r.randrange(0, 30000) - (15000 if kt["t"][0] == "i" else 0))
            seen[str(x)] = x
        vt = lf()
        return mapt(kt, vt), V("q", (), [V("q", (), [x, g.val(vt)]) for x in seen.values()])
    elif c == 3:        # variants
        st = struct(*[ptr(lf()) for _ in range(k)])
        i = r.choice([0, k - 1, k - 1, k // 2, min(k - 1, 127), min(k - 1, 128), min(k - 1, 255), r.randrange(k)])
        x = V("v", [i], [g.val(st["e"][i]["e"][0])])
        return struct(T("u8"), tag(st, "variant"), T("u8")), V("q", (), [num(1), x, num(2)])
    elif c == 4:        # slices
        e = r.choice([lf(), struct(lf(), tag(ptr(lf()), "optional")), slc(T("u8"))])
        return slc(e), V("q", (), [g.val(e) for _ in range(k)])
    elif c == 5:        # deep
        t = T("u8")
        for _ in range(r.choice([8, 15, 16, 17, 30])):
            t = r.choice([lambda t: struct(t), lambda t: struct(T("u8"), t), lambda t: arr(1, t), lambda t: slc(t), lambda t: struct(tag(ptr(t), "optional")),
                          lambda t: struct(tag(struct(ptr(t)), "variant")), lambda t: mapt(T("u8"), t)])(t)
        def one(t):     # present all the way down
            if t["g"] == "variant": return V("v", [0], [one(t["e"][0]["e"][0])])
            if t["t"] == "ptr": return one(t["e"][0])
            if t["t"] in ("slice", "array"): return V("q", (), [one(t["e"][0])])
            if t["t"] == "map": return V("q", (), [V("q", (), [num(3), one(t["e"][1])])])
            if t["t"] == "struct": return V("q", (), [one(f) for f in t["e"]])
            return num(r.randrange(1, 256))
        return t, one(t)
    else:               # optional fields, all kinds of presence
        t = struct(*[tag(ptr(lf()), "optional") for _ in range(k)])
    return t, g.val(t)

def wide(r, n):
    """very many fields, elements, entries, alternatives or levels: whole, in chunks, cut, refused"""
    out, g = [], G(r)
    for i in range(n):
        t, v = widetv(r, g)
        p = r.choice(PATHS)
        if any(f["g"] == "variant" and len(f["e"]) > 256 for f in t["e"]):
            out.append([enc(t, v, r.choice(PATHS), r.choice(["val", "ptr"]))]); continue
        s = [enc(t, v, r.choice(PATHS), r.choice(["val", "ptr"])), wire(ch=r.choice([[], [], [1], [100]])), dec(t, 1, r.choice(PATHS))]
        c = r.random()
        if c < .3: s += [ev("encs", t=t, sl=1, path="chain", by="val")]
        elif c < .6: s += [ev("cuts", t=t, src="wire", en=r.choice(["eof", "err"]), path=p, by="ptr", max=12, ch=r.choice([[], [7]]))]
        elif c < .8: s += [ev("faults", t=t, v=v, path=p, by="val", max=12, short=r.random() < .5, once=r.random() < .6)]
        out.append(s)
    return out

def full(g, m): return lambda r, n: g(r, m)

def growth(r, n):
    """slices with more elements than a decoder would set aside up front"""
    out = []
    for i in range(n):
        k = r.choice([32, 64, 50])            # Go elements of 8*k bytes, two on the wire
        t = struct(tag(struct(*[ptr(T("u8")) for _ in range(k)]), "variant"))
        m = r.choice([1, 1, 2, 2, 3]) * 65536 // (8 * k) + r.choice([-1, 0, 1, 2, 7])
        vs = [V("q", (), [V("v", [j % k], [num(j % 251)])]) for j in range(m)]
        v = V("q", (), vs)
        s = [enc(slc(t), v, r.choice(PATHS), "val"), wire(ch=r.choice([[], [1000]])), dec(slc(t), 1, r.choice(PATHS))]
        if r.random() < .5:      # once more into the same variable, and shorter
            s += [wire(), dec(slc(t), 1, r.choice(PATHS))]
        if r.random() < .3:
            s += [wire(cut=r.choice([500, 990])), dec(slc(t), 1, r.choice(PATHS)), wire(), dec(slc(t), 1)]
        out.append(s)
    return out

def rounds(r, n):
    """one encoder and one decoder for a very long time"""
    out = []
    g = G(r)
    ts = [T("list"), T("tree"), T("rvar"), T("rmap"), T("nest"), T("action"), T("tx"), T("abi"), slc(struct(T("u8"), ptr(T("str")))), mapt(T("u8"), slc(T("u16"))),
          struct(tag(ptr(T("u8")), "optional"), tag(struct(ptr(T("u8")), ptr(T("str"))), "variant")), arr(2, slc(T("nu32"))), T("pubkey"), T("u64"), T("vu"), T("str")]
    for i in range(n):
        t = r.choice(ts) if r.random() < .7 else TG(r).any(3)
        if t["t"] == "abi":         # its last field may be absent
            t = T("abistruct")
        v = g.val(t)
        if len(str(v)) > 3000: v = g.val(t)
        out.append([ev("rep", t=t, v=v, path=r.choice(PATHS), by=r.choice(["val", "ptr"]), n=r.choice([3, 500, 12000]))])
    return out

def odd(r):
    return [[ev("odd", form=f, n=i, path=p) for p in PATHS] for f in ("enc", "dec") for i in range(25)]

BOUND = sorted({0, 1, 2, 127, 128, 129, 255, 256} | {1 << k for k in range(7, 65, 7)} | {(1 << k) - 1 for k in range(7, 65, 7)}
               | {(1 << k) + d for k in (15, 16, 31, 32, 63, 64) for d in (-1, 0, 1)})

def c01(r, n):
    out = []
    # every primitive at its boundaries, each through every access path
    for k in PRIM:
        t = T(k)
        if k in ("str", "bytes"):
            vals = [V("s", [i % 251 for i in range(m)]) for m in (0, 1, 2, 126, 127, 128, 129, 255, 256, 300)]
        elif k == "bool": vals = [num(0), num(1)]
        elif k == "f32": vals = [num(x) for x in (0, 1 << 31, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0x7fffffff, 0xffffffff, 1, 0x3f800000, 0x00800000)]
        elif k == "f64": vals = [num(x) for x in (0, 1 << 63, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, (0x7ff << 52) + 1, (1 << 64) - 1, 1, 0x3ff << 52, 1 << 52)]
        elif k == "vu": vals = [num(x) for x in BOUND if x < 1 << 64]
        elif k == "vi": vals = [num(s * x) for x in BOUND for s in (1, -1) if -(1 << 63) <= s * x < 1 << 63]
        elif k in U: vals = [num(x) for x in BOUND if x < 1 << U[k]]
        else: vals = [num(s * x) for x in BOUND for s in (1, -1) if -(1 << S[k] - 1) <= s * x < 1 << (S[k] - 1)]
        for i in range(0, len(vals), 8):
            for by in ("val", "ptr", "method"):
                s = []
                for v in vals[i:i + 8]: s.append(enc(t, v, r.choice(PATHS), by))
                s.append(wire())
                for v in vals[i:i + 8]:
                    # refused values wrote nothing
                    if k in ("vu",) and unnum(v) >= 1 << 32: continue
                    if k == "vi" and not -(1 << 31) <= unnum(v) < 1 << 31: continue
                    s.append(dec(t, 0, r.choice(PATHS), "method" if by == "method" else "ptr"))
                out.append(s)
    # reading numbers from raw bytes, including those beyond 32 bits
    for k in ("vu", "vi"):
        for x in BOUND + [1 << 35, 1 << 63, (1 << 64) - 1, (1 << 70) - 1]:
            b, y = [], x
            while True:
                b.append(y % 128 + (128 if y >= 128 else 0)); y //= 128
                if y == 0: break
            out.append([lit(b + [7]), dec(T(k), 0, r.choice(PATHS), r.choice(["ptr", "method"]))])
        for b in ([128, 0], [129, 128, 0], [255, 255, 255, 255, 15], [255, 255, 255, 255, 16], [255, 255, 255, 255, 127],
                  [128, 128, 128, 128, 128, 0], [128] * 9 + [1], [128] * 9 + [2], [255] * 12, [128] * 11 + [0], [128], [255, 255]):
            out.append([lit(b), dec(T(k), 0, "chain", r.choice(["ptr", "method"]))])
    g = G(r, bad=.05, big=True)
    while len(out) < n:
        tvs = []
        for _ in range(r.randrange(1, 7)):
            t = T(r.choice(PRIM)) if r.random() < .9 else rawb(r); tvs.append((t, g.val(t)))
        if any(t["t"] == "vu" and unnum(v) >= 1 << 32 or t["t"] == "vi" and not -(1 << 31) <= unnum(v) < 1 << 31 for t, v in tvs):
            out.append([enc(t, v, r.choice(PATHS), eby(r, t)) for t, v in tvs])
        else: out.append(roundtrip(r, tvs))
    return out

def variants(r, n):
    """variants read by themselves"""
    out = []
    g = G(r)
    while len(out) < n:
        alts = [TG(r).any(r.choice([0, 0, 1])) for _ in range(r.choice([1, 2, 3, 5]))]
        vt = tag(struct(*[a if a["t"] == "ptr" else ptr(a) for a in alts]), "variant")
        if r.random() < .3: vt = tag(ptr(tag(vt, "")), "variant")
        w = struct(vt)
        vs = [g.val(vt) for _ in range(3)]
        p = r.choice(PATHS)
        s = [enc(w, V("q", (), [v]), p) for v in vs] + [wire(ch=r.choice(CHS))] + [dec(vt, r.choice([0, 1, 1]), p, "variant") for _ in vs] + [ev("look", t=vt, sl=1)]
        if elems_nonempty(w): s += [lit([r.choice([len(alts), 255, r.randrange(256)]), 1, 2, 3, 4]), dec(vt, 1, p, "variant"), ev("cuts", t=vt, src="wire", en=r.choice(["eof", "err"]), path=p, by="variant", max=20, ch=r.choice(CHS))]
        out.append(s)
    return out

def c02(r, n):
    out = []
    leaves = PRIM * 3 + NAMED * 2 + ["name", "asset", "cbytes", "c160", "pubkey", "uint128", "perm"] + USER
    # every kind of nesting of two constructors over a few leaves
    cons = [lambda t: ptr(t) if t["t"] != "ptr" else t, slc, lambda t: arr(2, t), lambda t: mapt(T("str"), t), lambda t: mapt(T("i32"), t), lambda t: struct(t, T("u8")),
            lambda t: struct(tag(ptr(t) if t["t"] != "ptr" else t, "optional")),
            lambda t: struct(tag(struct(ptr(T("u8")), ptr(t) if t["t"] != "ptr" else t), "variant"))]
    g = G(r, bad=0)
    gb = G(r, bad=.12)
    for lf in ["u8", "u16", "str", "bool", "vu", "nu64", "ni32", "u24", "name", "f32", "bytes", "cbytes", "asset", "pubkey", "c160"]:
        for c1 in cons:
            for c2 in [lambda t: t] + cons:
                t = c2(c1(T(lf)))
                if t["t"] == "ptr" and t["e"][0]["t"] == "ptr": continue
                out.append(roundtrip(r, [(t, g.val(t)), (t, g.val(t))], ["chain", "plain"]))
    r.shuffle(out); out = out[:int(n * .6)]
    while len(out) < n:
        tg = TG(r, leaves)
        t = tg.any(3)
        c = r.random()
        if c < .6: out.append(roundtrip(r, [(t, g.val(t)), (t, g.val(t))]))
        else:
            t = TG(r, leaves, anys=True).any(3)
            out.append([enc(t, gb.val(t), r.choice(PATHS), eby(r, t)) for _ in range(3)])
    out += odd(r)
    # nil pointers to every leaf
    for lf in PRIM + NAMED + CHAIN:
        t = struct(T("u8"), ptr(T(lf)))
        out.append([enc(t, V("q", (), [num(1), NIL]), p) for p in PATHS])
        out.append([enc(ptr(T(lf)), NIL, p, "val") for p in PATHS])
        out.append([enc(slc(ptr(T(lf))), V("q", (), [NIL]), p) for p in PATHS])
    return out

def c03(r, n):
    out = []
    g = G(r, big=True)
    while len(out) < n:
        t = T(CHAIN[len(out) % len(CHAIN)])
        out.append(roundtrip(r, [(t, g.val(t)) for _ in range(r.randrange(1, 4))]))
    # unknown key types, and key bytes of every type
    for k in ("pubkey", "sig"):
        for m in (127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 16383, 16384, 65536):      # WA keys with long tails
            d = lambda m: [r.randrange(256) for _ in range(m)]
            a = r.choice([0, 3, m])
            v = V("key", [2] + d(34) + varlen(m) + d(m) if k == "pubkey" else [2] + d(65) + r.choice([varlen(a) + d(a) + varlen(m) + d(m), varlen(m) + d(m) + varlen(a) + d(a)]))
            out.append(roundtrip(r, [(T(k), v), (T("u8"), num(5))]))
        for kt in list(range(3, 12)) + [127, 128, 255]:
            out.append([lit([kt] + [r.randrange(256) for _ in range(80)]), dec(T(k), 0, r.choice(PATHS))])
    return out

def c04(r, n):
    out = []
    g = G(r, big=True)
    while len(out) < n:
        tg = TG(r)
        tvs = []
        for _ in range(r.randrange(2, 8)):
            t = tg.any(r.choice([0, 0, 1, 2])) if r.random() < .9 else rawb(r); tvs.append((t, g.val(t)))
        s = []
        for t, v in tvs: s.append(enc(t, v, r.choice(PATHS), eby(r, t)))
        s.append(wire(ch=r.choice([[], [], [1], [3, 1]]), d=r.choice([[], [], [0], [255, 255, 255]])))
        for t, v in tvs: s.append(dec(t, 0, r.choice(PATHS), dby(r, t)))
        out.append(s)
    return out

def c05(r, n):
    out = []
    g = G(r)
    kinds = PRIM + NAMED + CHAIN + USER
    while len(out) < n:
        if len(out) < 2 * len(kinds): t = T(kinds[len(out) % len(kinds)])
        else: t = TG(r).any(2)
        p = r.choice(PATHS)
        out.append([enc(t, g.val(t)), ev("cuts", t=t, src="wire", en="eof", path=p, by=dby(r, t), max=0 if len(out) < 3 * len(kinds) else 24,
                                         ch=r.choice([[], [], [1], [2, 0]]))])
        # a vector announcing more elements than there are
        if r.random() < .2:
            out.append([lit(varlen(r.choice([1, 2, 200, 1 << 20])) + [1] * r.randrange(0, 5)), dec(slc(T("u16")), 0, p)])
    return out

HUGE = [[255, 255, 255, 255, 15], [255, 255, 255, 255, 7], [128, 128, 128, 128, 8], [128, 128, 128, 128, 1], [128, 128, 128, 8], [255, 255, 255, 127],
        [128, 128, 64], [128, 128, 128, 128, 16], [255] * 9 + [1], [255] * 9 + [127], [128] * 9 + [1], [255] * 4 + [31]]

def deep(r, n):
    """long runs that nest ever deeper, complete and not"""
    out = []
    for i in range(n):
        t, d, z = r.choice([("list", [7, 1], [7, 0]), ("tree", [1, 0, 1], [1, 0, 0]), ("tree", [1, 0, 2, 9, 9, 0], [1, 0, 0]), ("rvar", [1], [0, 5]),
                            ("rvar", [2, 1], [2, 0]), ("rvar", [2, 2, 0, 1], [2, 0]), ("rmap", [1, 9], [0]), ("rmap", [2, 3, 0, 4], [0]),
                            # every level announces more than there is
                            ("tree", [1, 0, 255, 255, 3], []), ("tree", [1, 0, 255, 255, 255, 255, 15], []), ("tree", [1, 0, 100], []), ("rvar", [2, 255, 255, 127], []), ("rvar", [2, 127], []), ("rmap", [255, 255, 3, 7], [])])
        m = r.choice([3, 100, 1000, 3000, 20000, 100000, 300000])
        out.append([ev("bulk", t=T(t), d=d, n=m, a=r.choice([z, z, [], z[:-1]]), path=r.choice(PATHS), ch=r.choice([[], [], [1000]]))])
    # values that repeat at the top of a stream do not nest
    return out

def c06(r, n):
    out = []
    g = G(r)
    ts = [T(k) for k in ("str", "bytes", "cbytes", "blob", "action", "tx", "txext", "pubkey", "sig", "abi", "abistruct")]
    ts += [slc(T(k)) for k in ("u8", "u16", "u64", "str", "name", "c512", "asset", "perm", "action", "nu64", "ni32", "u24", "bool", "f64")]
    ts += [mapt(T("u8"), T("u64")), mapt(T("str"), T("str")), slc(struct(T("u8"), T("c512"))), slc(slc(T("u8"))), slc(ptr(T("u64"))),
           struct(tag(ptr(slc(T("u32"))), "optional")), arr(3, slc(T("u16"))), struct(tag(struct(ptr(slc(T("u64"))), ptr(T("bytes"))), "variant"))]
    pre = {"action": [16 * [1]], "tx": [[0] * 13, [0] * 14, [0] * 15], "txext": [[1, 0]], "pubkey": [[2] + [1] * 34], "sig": [[2] + [1] * 65, [2] + [1] * 65 + [0]],
           "abi": [[0], [0, 0], [0, 0, 0], [0] * 6, [0] * 7, [0] * 8], "abistruct": [[0, 0]]}
    for t in ts:
        for h in HUGE:
            for p in pre.get(t["t"], [[]]):
                d = list(p)
                if t["t"] == "struct": d = [r.randrange(2)]
                out.append([lit(d + h + [r.randrange(256) for _ in range(r.randrange(0, 12))]), dec(t, 0, r.choice(PATHS), "ptr", True)])
    r.shuffle(out)
    out = out[:int(n * .6)]
    while len(out) < n:
        tg = TG(r)
        t = tg.any(2)
        if not elems_nonempty(t): continue
        c = r.random()
        if c < .35:
            d = [r.choice([0, 1, 2, 255, 128, r.randrange(256)]) for _ in range(r.randrange(0, 40))]
            out.append([lit(d), dec(t, 0, r.choice(PATHS), "ptr", True)])
        else:
            s = [enc(t, g.val(t)), wire(fl=[[r.randrange(1 << 16), r.choice([1, 2, 128, 255, 127, r.randrange(1, 256)])] for _ in range(r.randrange(1, 4))], d=[0] * r.choice([0, 0, 5])),
                 dec(t, 0, r.choice(PATHS), "ptr", True)]
            out.append(s)
    return out

def c07(r, n):
    out = []
    g = G(r)
    kinds = PRIM + NAMED + CHAIN + USER
    custl = ["u16x", "namex"] * 3 + ["u8", "str", "u32", "asset", "uint128", "nu64", "vu"]
    while len(out) < n:
        if len(out) % 3 == 0:     # custom function precedence
            t = TG(r, custl).any(2)
            v = g.val(t)
            s = [enc(t, v, p, by) for p in ("cust", "custplain") for by in ("val", "ptr")]
            s += [wire()] + [dec(t, 0, p) for p in ("cust", "custplain", "cust", "custplain")]
            out.append(s); continue
        t = T(kinds[len(out) % len(kinds)]) if len(out) < 2 * len(kinds) else TG(r).any(2)
        v = g.val(t)
        if len(out) % 3 == 1:
            out.append([ev("custerr", t=t, v=v, path=r.choice(["chain", "plain"]), by=r.choice(["val", "ptr"]) if f == "enc" else "ptr", n=k, form=f, once=r.random() < .5)
                        for f in ("enc", "dec") for k in (1, 2, 3, r.randrange(1, 12))])
        combos = [(p, by) for p in PATHS for by in ("val", "ptr", "marsh")]
        s = [enc(t, v, p, by) for p, by in combos] + [wire()]
        s += [dec(t, 0, r.choice(PATHS), dby(r, t)) for _ in combos]
        # the same malformed input through all three decoders
        s += [enc(t, g.val(t))]
        fl = [[r.randrange(1 << 16), r.randrange(1, 256)]]
        for p in PATHS: s += [wire(fl=fl), dec(t, 0, p)]
        if not elems_nonempty(t): s = s[:2 * len(combos) + 1]
        out.append(s)
    return out

def c08(r, n):
    out = []
    g = G(r)
    kinds = PRIM + NAMED + CHAIN + USER
    while len(out) < n:
        t = T(kinds[len(out) % len(kinds)]) if len(out) < 3 * len(kinds) else r.choice([TG(r, exts=r.random() < .2).any(3), rawb(r)] if r.random() < .2 else [TG(r, exts=r.random() < .2, anys=True).any(3)])
        v = g.val(t)
        out.append([ev("faults", t=t, v=v, path=r.choice(PATHS), by=eby(r, t), max=0 if len(out) < 5 * len(kinds) else 20, short=r.random() < .5, once=r.random() < .6)])
        if r.random() < .2:
            u = T("u8")
            out.append([enc(u, num(1)), enc(t, v, "chain", "val", r.randrange(0, 12), short=r.random() < .5, once=True), enc(u, num(2))])
    return out

CHS = [[1], [2], [1, 0], [0, 1], [3, 1, 2], [7], [0, 0, 5], [64], []]

def c09(r, n):
    out = []
    g = G(r, big=True)
    kinds = PRIM + NAMED + CHAIN + USER
    while len(out) < n:
        t = T(kinds[len(out) % len(kinds)]) if len(out) < len(kinds) else TG(r, exts=r.random() < .3).any(2)
        if r.random() < .05: t = rawb(r)
        if t["t"] == "struct" and r.random() < .3: t = TG(r, exts=True).struct(2, True)
        p = r.choice(PATHS); by = dby(r, t)
        s = [enc(t, g.val(t)), enc(T("u8"), num(77))]
        for ch in r.sample(CHS, 3):
            s += [wire(ch=ch, **{"with": r.random() < .5}, en=r.choice(["eof", "err"])), dec(t, 0, p, by), dec(T("u8"), 0, p)]
        out.append(s)
        t = T(kinds[len(out) % len(kinds)]) if len(out) < 2 * len(kinds) else TG(r, exts=r.random() < .3).any(2)
        if r.random() < .25: t = TG(r, exts=True).struct(2, True)
        once = r.random() < .6
        out.append([enc(t, g.val(t)), ev("cuts", t=t, src="wire", en="err", path=p, by=dby(r, t), max=0 if t["t"] in kinds else 16, ch=r.choice(CHS), once=once, **{"with": r.random() < .5 and not once})])
    return out

def c10(r, n):
    out = []
    g = G(r)
    kinds = PRIM + NAMED + CHAIN + USER + ["abi"]
    while len(out) < n:
        t = T(kinds[len(out) % len(kinds)]) if len(out) < 2 * len(kinds) else TG(r, exts=r.random() < .3).any(3)
        if r.random() < .15: t = TG(r, exts=True).struct(2, True)
        s = []
        if r.random() < .7: s.append(ev("poke", t=t, v=g.val(t), sl=1))
        for _ in range(r.randrange(1, 5)):
            start = len(s)
            s.append(enc(t, g.val(t)))
            out_of = r.random()
            # decode the most recent value: reopen on the whole wire and skip the earlier ones
            k = sum(1 for e in s if e["op"] == "enc")
            if out_of < .25:
                s.append(wire(cut=r.randrange(100, 990)))
            else: s.append(wire())
            has = t["t"] == "abi" or any(f["g"] == "extension" for f in t["e"])
            if has:     # extensions: one value per stream
                s = [e for e in s if not (e["op"] == "enc" and e is not s[start])]
            for _ in range(1 if has else k): s.append(dec(t, 1, r.choice(PATHS), dby(r, t)))
            if has: break
        s.append(ev("look", t=t, sl=1))
        if r.random() < .5: s.append(ev("encs", t=t, sl=1, path="chain", by="val"))
        out.append(s)
    # used variables for extension types
    for _ in range(n // 6):
        t = r.choice([T("abi"), TG(r, exts=True).struct(2, True)])
        v1, v2 = g.val(t), g.val(t)
        s = [ev("poke", t=t, v=v1, sl=1), enc(t, v2), wire(cut=r.choice([0, r.randrange(300, 1000)])), dec(t, 1), ev("look", t=t, sl=1)]
        out.append(s)
    return out

def c11(r, n):
    out = []
    while len(out) < n:
        g = G(r, wide=True)
        c = r.random()
        if c < .4:
            t = mapt(T(r.choice(MAPKEYS)), TG(r).any(1))
            if r.random() < .3: t = struct(t, slc(t))
        else: t = TG(r).any(3)
        v = g.val(t)
        s = [enc(t, v, r.choice(PATHS), eby(r, t)) for _ in range(4)] + [wire()]
        slots = [1, 2, 3, 4]
        for i in slots: s.append(dec(t, i))
        for i in slots: s += [ev("look", t=t, sl=i), ev("encs", t=t, sl=i, path="chain", by="val"), ev("look", t=t, sl=i)]
        out.append(s)
    return out

def live(r, n):
    """values that change in place between encodings"""
    out = []
    while len(out) < n:
        g = G(r, wide=True)
        c = r.random()
        t = mapt(T(r.choice(MAPKEYS)), TG(r).any(1)) if c < .4 else slc(TG(r).any(1)) if c < .5 else T(r.choice(CHAIN)) if c < .6 else TG(r).any(2)
        if r.random() < .3: t = r.choice([struct(t, slc(T("u8"))), slc(t), ptr(t), struct(T("u8"), tag(ptr(t), "optional"))])
        vs = [g.val(t) for _ in range(3)]
        for v in vs[1:]:            # of the same size
            if t["t"] == "map" and len(v["e"]) > len(vs[0]["e"]): v["e"] = v["e"][:len(vs[0]["e"])]
        path, by = r.choice(PATHS), eby(r, t)
        s = [dict(enc(t, v, path if r.random() < .7 else r.choice(PATHS), by if r.random() < .7 else eby(r, t)), mod=True) for v in (vs + [vs[0], vs[1]])[:r.randrange(2, 6)]]
        out.append(s + [wire()] + [dec(t, i % 2, path, dby(r, t)) for i in range(len(s))])
    return out

def owners(r, n):
    """decoded values belong to whoever decoded them: changing one shows in no other, before or after"""
    out = []
    while len(out) < n:
        g = G(r)
        c = r.random()
        t = T(r.choice(["cbytes", "bytes", "blob", "pubkey", "sig", "action", "abi", "tx"])) if c < .4 else TG(r).any(2)
        if r.random() < .4: t = r.choice([slc(t), struct(t, t), ptr(t), mapt(T("u8"), t), struct(T("u8"), tag(ptr(t), "optional"))])
        v = g.val(t)
        if len(json.dumps(v)) > 8000: continue
        p = r.choice(PATHS)
        s = [enc(t, v, p, eby(r, t)), wire(), dec(t, 1, p, dby(r, t)), wire(), dec(t, 2, p, dby(r, t)), ev("spoil", sl=1), ev("look", t=t, sl=2),
             wire(), dec(t, 3, r.choice(PATHS), dby(r, t)), ev("look", t=t, sl=3), ev("spoil", sl=3), ev("look", t=t, sl=2), wire(), dec(t, 1, p, dby(r, t)), ev("look", t=t, sl=1),
             ev("encs", t=t, sl=1, path=r.choice(PATHS), by="val")]
        out.append(s)
    return out

def c16(r, n):
    """typed half of C16"""
    out = []
    g = G(r)
    while len(out) < n:
        t = TG(r, exts=True).struct(2, True)
        v = g.val(t)
        # drop a random suffix of pointer extensions, sometimes a hole
        k = len(t["e"])
        if r.random() < .6:
            i = r.randrange(k)
            for j in range(i, k):
                if t["e"][j]["g"] == "extension" and t["e"][j]["t"] == "ptr": v["e"][j] = NIL
        elif r.random() < .5:
            for j in range(k):
                if t["e"][j]["g"] == "extension" and t["e"][j]["t"] == "ptr" and r.random() < .5: v["e"][j] = NIL
        s = [enc(t, v, r.choice(PATHS), eby(r, t))]
        out.append(s + [wire(), dec(t, 1), ev("encs", t=t, sl=1, path=r.choice(PATHS), by="val")])
        v = g.val(t)
        out.append([enc(t, v), ev("cuts", t=t, src="wire", en=r.choice(["eof", "eof", "err"]), path=r.choice(PATHS), by="ptr", max=30, ch=r.choice([[], [1]]), **{"with": r.random() < .3})])
    return out
