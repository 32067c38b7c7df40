"""JSON forms (C28, and the JSON half of C17)."""
from nodes import *
from gen_codec import ev, wire, lit, enc, dec
import gen_abi as ga, gen_text as gt

TEXTS = ["", "hi", "\u00fcn\u00efcode", "a\"b\\c/d", "<b>&amp;</b>", "line\nbreak\ttab\r", "\x00\x01\x1f\x7f", "\U0001f600 emoji", "null", "12", "\u2028\u2029", "\ufffd"]

class JG(G):
    """values whose text form is specified and exact"""
    def val(self, t, small=False):
        r = self.r
        k = t["t"]
        if k == "str": return V("s", r.choice(TEXTS).encode())
        if k == "symbol": return num(gt.symval(r.randrange(0, 19), gt.symname(r)))
        if k == "symcode": return num(int.from_bytes(gt.symname(r).encode(), "little"))
        if k == "tp":
            x = gt.tval(r, "tp"); x = unnum(x) if isinstance(x, dict) else x
            x -= x % 1000
            return num(max(-62135596800 * 10 ** 6, min(x, 253402300799 * 10 ** 6)))
        return super().val(t, small)

SC = ["name", "symbol", "symcode", "asset", "extasset", "uint64", "uint128", "int128", "float128", "blocknum", "tp", "tps", "bts", "c160", "c256", "c512", "cbytes", "blob",
      "pubkey", "sig", "perm", "action", "txhdr", "txext", "tx"]
ABIK = ["abi", "abitype", "abifield", "abiclause", "abistruct", "abiaction", "abitable", "abiext", "abierr", "abivariant"]
PL = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "vu", "vi", "bool", "str"]

def js(r, t, v): return ev("json", t=t, v=v, n=r.randrange(1 << 30))

def jtype(r, d):
    c = r.random()
    if d <= 0 or c < .5: return T(r.choice(SC + PL))
    if c < .65: return slc(noslice(jtype(r, d - 1)))
    if c < .75: return ptr(noptr(jtype(r, d - 1)))
    if c < .82: return mapt(T("str"), jtype(r, d - 1))
    if c < .87: return arr(r.randrange(0, 3), noslice(jtype(r, d - 1)))
    return struct(*[jtype(r, d - 1) for _ in range(r.randrange(0, 5))])

def noslice(t): return T("u16") if t["t"] == "u8" else t
def noptr(t): return t["e"][0] if t["t"] == "ptr" else t

def c28(r, n):
    out = []
    g = JG(r, big=True)
    for k in SC * 4:
        t = T(k)
        out.append([js(r, t, g.val(t)), js(r, t, g.val(t))])
    for k in ("uint64", "blocknum"):
        for x in (0, 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1):
            if k == "blocknum" and x >= 1 << 32: continue
            out.append([js(r, T(k), num(x))])
    for m in (64, 127, 128, 129, 255, 256, 257, 300):         # long ones
        d = lambda: V("s", [r.randrange(256) for _ in range(m * r.choice([1, 16]))])
        txt = lambda: V("s", (r.choice(TEXTS) * m).encode())
        for t, v in ((T("cbytes"), d()), (T("blob"), d()), (T("str"), txt()), (slc(T("name")), V("q", (), [g.val(T("name")) for _ in range(m)])), (T("txext"), V("q", (), [num(3), d()])),
                     (slc(T("asset")), V("q", (), [g.val(T("asset")) for _ in range(m)])), (slc(T("str")), V("q", (), [g.val(T("str")) for _ in range(m)])),
                     (T("action"), V("q", (), [num(1), num(2), V("q", (), [V("q", (), [num(x), num(7)]) for x in range(m)]), V("s", [1])])),
                     (struct(*[T(r.choice(["u8", "name", "str", "uint64"])) for _ in range(m)]), None)):
            out.append([js(r, t, v or g.val(t))])
    gb = JG(r, bad=.15)
    while len(out) < n:
        c = r.random()
        if c < .6:
            t = jtype(r, 3)
            out.append([js(r, t, gb.val(t))])
        else:
            ag = ga.AG(r)
            # no floating point members
            txt = str(ag.ab.node())
            if any(x in flat(ag.ab) for x in ("float32", "float64")): continue
            nm = ag.pick()
            v = ga.VG(r, ag.ab, JG(r)).val(nm)
            if "float" in nm or not ga.small(v): continue
            out.append([ga.setabi(r, ag.ab), ga.aenc(nm, v), wire(), ga.adec(nm, 1), ev("ajson", sl=1), ga.alook(1)])
    return out

def flat(ab):
    return [ga.split(t)[0] for _, t in ab.types] + [ga.split(t)[0] for _, _, f in ab.structs for _, t in f] + [ga.split(t)[0] for _, ts in ab.variants for t in ts] + [t for _, t, _ in ab.actions]

def c17j(r, n):
    out = []
    g = JG(r)
    while len(out) < n:
        t = T("abi") if r.random() < .6 else T(r.choice(ABIK))
        v = g.val(t)
        if t["t"] == "abi" and r.random() < .4:
            for i in (6, 7, 8):
                if r.random() < .5: v["e"][i] = V("q")
        out.append([js(r, t, v)])
    return out
