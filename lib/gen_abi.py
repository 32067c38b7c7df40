"""ABI definitions, values of their types and scripts for ABI-driven coding (C12-C17)."""
import copy, json
from nodes import *
from gen_codec import ev, enc, dec, wire, lit, PATHS, CHS, HUGE

B = {"bool": "bool", "string": "str", "uint8": "u8", "uint16": "u16", "uint32": "u32", "uint64": "uint64", "uint128": "uint128",
     "int8": "i8", "int16": "i16", "int32": "i32", "int64": "i64", "int128": "int128", "float32": "f32", "float64": "f64", "float128": "float128",
     "varuint32": "vu", "varint32": "vi", "bytes": "cbytes", "asset": "asset", "block_timestamp_type": "bts",
     "checksum160": "c160", "checksum256": "c256", "checksum512": "c512", "eosio::name": "name", "extended_asset": "extasset", "name": "name",
     "public_key": "pubkey", "signature": "sig", "symbol_code": "symcode", "symbol": "symbol", "time_point_sec": "tps", "time_point": "tp"}

def s(x): return V("s", x.encode() if isinstance(x, str) else x)
def q(l): return V("q", (), l)

def nameval(t):
    """the value of a name's text"""
    v = 0
    for i in range(13):
        c = t[i] if i < len(t) else "."
        x = 0 if c == "." else ord(c) - 96 + 5 if c >= "a" else ord(c) - 48
        if i < 12: v = v << 5 | x
        else: v = v << 4 | (x & 15)
    return v

class Abi:
    def __init__(self):
        self.types, self.structs, self.actions, self.tables, self.clauses, self.errs, self.exts, self.variants = [], [], [], [], [], [], [], []
        self.version = "eosio::abi/1.1"

    def node(self):
        return q([s(self.version),
                  q([q([s(a), s(b)]) for a, b in self.types]),
                  q([q([s(n), s(b), q([q([s(x), s(y)]) for x, y in f])]) for n, b, f in self.structs]),
                  q([q([num(n), s(t), s(c)]) for n, t, c in self.actions]),
                  q([q([num(n), s(i), q([s(x) for x in kn]), q([s(x) for x in kt]), s(t)]) for n, i, kn, kt, t in self.tables]),
                  q([q([s(a), s(b)]) for a, b in self.clauses]),
                  q([q([num(c), s(m)]) for c, m in self.errs]),
                  q([q([num(t), s(d)]) for t, d in self.exts]),
                  q([q([s(n), q([s(x) for x in ts])]) for n, ts in self.variants])])

    # resolution, only to generate fitting values
    def struct(self, n):
        return next((x for x in self.structs if x[0] == n), None)
    def variant(self, n):
        return next((x for x in self.variants if x[0] == n), None)
    def alias(self, n):
        return next((x for x in self.types if x[0] == n), None)

    def fields(self, n, d=0):
        st = self.struct(n)
        if st is None:
            al = self.alias(n)
            return self.fields(al[1], d + 1) if al and d < 30 else []
        return (self.fields(st[1], d + 1) if st[1] and d < 30 else []) + st[2]

def split(nm):
    e = nm.endswith("$"); nm = nm[:-1] if e else nm
    o = nm.endswith("?"); nm = nm[:-1] if o else nm
    a = nm.endswith("[]"); nm = nm[:-2] if a else nm
    return nm, a, o, e

def mapnode(d):
    return V("map", (), [V("f", k.encode(), [d[k]]) for k in sorted(d, key=lambda x: x.encode())])

class VG:
    """values of a definition's types"""
    def __init__(self, r, ab, g=None):
        self.r, self.ab, self.g = r, ab, g or G(r)

    def val(self, nm, d=0):
        base, a, o, e = split(nm)
        r = self.r
        if d == 0: self.n = 0
        self.n += 1
        if self.n > 1500 or d > 100: raise RecursionError
        if o and r.random() < (.35 if d < 5 and self.n < 120 else 1): return NIL
        if a:
            n = 0 if d > 5 or self.n > 120 else r.choice([0, 1, 1, 2, 3]) if d < 3 else r.choice([0, 1, 2])
            return V("slice", (), [self.inner(base, d) for _ in range(n)])
        return self.inner(base, d)

    def inner(self, base, d):
        r, ab = self.r, self.ab
        if ab.struct(base):
            out = {}
            for n, t in ab.fields(base): out[n] = self.val(t, d + 1)
            return mapnode(out)
        v = ab.variant(base)
        if v:
            t = r.choice(v[1]) if d < 6 else v[1][0]
            return V("slice", (), [leaf("str", s(t)), self.val(t, d + 1)])
        al = ab.alias(base)
        if al: return self.val(al[1], d + 1)
        k = B[base]
        if k == "uint64" and r.random() < .2: k = "u64"
        if k == "cbytes" and r.random() < .2: k = "bytes"
        return leaf(k, self.g.val(T(k)))

def leaf(k, v): return V(k, (), [v])

NAMES = ["a", "b", "S", "x", "transfer", "issue", "Point", "t_1", "foo", "bar", "baz", "qux", "k", "V", "opt", "arr", "account::name", "pair<int,int>", "z9", "long_type_name_number_0123456789", "\u00fc", "B_1", "Id"]
FNAMES = ["a", "b", "c", "from", "to", "x", "y", "memo", "id", "", "value", "\u00e9", "q1", "zz", "A", "B", "_", "data", "first", "second", "third"]
ANAMES = ["transfer", "issue", "a", "b.c", "open", "close", "zzzzzzzzzzzzj", "", "1", "set.abi", "noop"]

class AG:
    """random well-formed definitions"""
    def __init__(self, r, exts=False, shadow=False, rec=True):
        self.r = r
        self.ab = ab = Abi()
        self.shadow = shadow
        pool = NAMES[:]
        sh = r.sample(sorted(B), 3) if shadow else []
        pool += sh
        self.plain = [b for b in sorted(B) if b not in sh]
        r.shuffle(pool)
        self.names = []
        n = r.randrange(1, 8)
        self.size = {}
        for nm in pool[:n]:
            c = r.random()
            if c < .55: self.mkstruct(nm, exts=False, rec=rec)
            elif c < .75: self.mkvariant(nm, rec)
            else: self.mkalias(nm)
            self.names.append(nm)
        if exts or not ab.structs: 
            self.mkstruct("main", exts, rec); self.names.append("main")
        for x in r.sample(ANAMES, r.randrange(1, 4)):
            st = [z for z in self.names]
            ab.actions.append((nameval(x), self.texpr(False) if r.random() < .2 else r.choice(st), r.choice(["", "# contract"])))
        for x in r.sample(ANAMES, r.randrange(0, 3)):
            ab.tables.append((nameval(x), r.choice(["i64", ""]), r.sample(FNAMES, r.randrange(0, 3)), r.sample(sorted(B), r.randrange(0, 3)), r.choice(self.names)))

    def minsize(self, nm, seen=()):
        base, a, o, e = split(nm)
        if a or o: return 1
        if nm in seen: return 1
        ab = self.ab
        if ab.struct(base): return sum(self.minsize(t, seen + (nm,)) for _, t in ab.fields(base))
        if ab.variant(base): return 1
        if ab.alias(base): return self.minsize(ab.alias(base)[1], seen + (nm,))
        return 1 if base in B else 0

    def nullable(self, nm, d=0):
        base, a, o, e = split(nm)
        if o: return True
        al = None if self.ab.struct(base) or self.ab.variant(base) else self.ab.alias(base)
        return not a and d < 9 and al is not None and self.nullable(al[1], d + 1)

    def texpr(self, suffixes=True, cur=None):
        r = self.r
        if self.names and r.random() < .5: b = r.choice(self.names)
        elif cur and r.random() < .25: return cur + r.choice(["[]", "?", "[]?"])
        else: b = r.choice(self.plain)
        if not suffixes: return b
        c = r.random()
        if c < .2 and self.minsize(b) > 0 and not self.nullable(b): return b + "[]"
        if c < .35 and not self.nullable(b): return b + "?"
        if c < .42 and self.minsize(b) > 0 and not self.nullable(b): return b + "[]?"
        return b

    def mkstruct(self, nm, exts=False, rec=True):
        r, ab = self.r, self.ab
        base, have = "", []
        cands = [x[0] for x in ab.structs] + [a for a, t in ab.types if ab.struct(t) and not ab.struct(a)]
        if cands and r.random() < .4:
            base = r.choice(cands)
            have = [f[0] for f in ab.fields(base)]
        fs = []
        for f in r.sample(FNAMES, r.choice([0, 1, 2, 3, 4, 5]) if not exts else r.randrange(0, 3)):
            if f in have: continue
            fs.append((f, self.texpr(True, nm if rec else None)))
        if exts:
            left = [f for f in FNAMES if f not in have and f not in [x[0] for x in fs]]
            for f in r.sample(left, r.randrange(1, 4)):
                t = self.texpr()
                while self.minsize(t) == 0: t = self.texpr()
                fs.append((f, t + "$"))
        ab.structs.append((nm, base, fs))

    def mkvariant(self, nm, rec):
        r = self.r
        ts = []
        for _ in range(r.choice([1, 2, 2, 3, 5, 130 if r.random() < .15 else 3])):
            t = self.texpr(True, None)
            if t not in ts: ts.append(t)
        if len(ts) == 5 and r.random() < .3 or r.random() < .08:     # more than 127 alternatives
            for b in self.plain:
                for x in ("", "?", "[]", "[]?"):
                    if b + x not in ts and len(ts) < 133: ts.append(b + x)
        if rec and r.random() < .25: ts.append(nm + "[]")
        self.ab.variants.append((nm, ts))

    def mkalias(self, nm):
        self.ab.types.append((nm, self.texpr(self.r.random() < .4)))

    def pick(self):
        r = self.r
        c = r.random()
        if c < .8: return r.choice(self.names)
        b = r.choice(self.names)
        if self.minsize(b) > 0 and not self.nullable(b): return b + r.choice(["[]", "?", "[]?"])
        return b

def setabi(r, ab, form=None):
    return ev("abi", v=ab.node(), form=form or r.choice(["direct", "direct", "bin", "plain", "json"]))

def aenc(nm, v, lim=-1, by="type", act=0, **k): return ev("aenc", nm=list(nm.encode()), v=v, lim=lim, by=by, v0=num(act), **k)
def adec(nm, sl=0, by="type", act=0, meas=False): return ev("adec", nm=list(nm.encode()), sl=sl, by=by, v0=num(act), meas=meas)
def areenc(nm, sl, by="type", act=0): return ev("areenc", nm=list(nm.encode()), sl=sl, by=by, v0=num(act))
def alook(sl): return ev("alook", sl=sl)
def acuts(nm, en="eof", by="type", act=0, **k): return ev("acuts", nm=list(nm.encode()), by=by, v0=num(act), en=en, **k)
def afaults(nm, v, by="type", act=0, **k): return ev("afaults", nm=list(nm.encode()), v=v, by=by, v0=num(act), **k)
def actdec(act, d): return ev("actdec", by="action", v0=num(act), nm=[], d=list(d))
def lookup(form, nm="", act=0): return ev("alookup", form=form, nm=list(nm.encode()), v0=num(act))

def small(v, lim=1500): return len(json.dumps(v)) < lim * 8

def target(r, ag):
    """(kwargs for by/act, type name)"""
    if ag.ab.actions and r.random() < .4:
        n, t, _ = r.choice(ag.ab.actions)
        t = next(x[1] for x in ag.ab.actions if x[0] == n)
        return {"by": "action", "act": n}, t
    return {}, ag.pick()

def pyvar(r):
    """bytes likely to mean something: small counts, tags, text"""
    return [r.choice([0, 0, 1, 1, 2, 3, 97, 128, 255, r.randrange(256)]) for _ in range(r.randrange(0, 60))]

def builtins_all(r):
    """every built-in alone, as array, optional and both, by value and from raw bytes"""
    out = []
    g = G(r, big=True)
    for b, k in B.items():
        ab = Abi()
        ab.structs.append(("w", "", [("f", b), ("g", b + "[]"), ("h", b + "?"), ("i", b + "[]?"), ("e", b + "$")]))
        ab.types.append(("al", b)); ab.variants.append(("va", [b, b + "[]", "al"]))
        vg = VG(r, ab, g)
        for nm in (b, "al", b + "[]", b + "?", "w", "va"):
            v = vg.val(nm)
            out.append([setabi(r, ab), aenc(nm, v), wire(), adec(nm, 1), areenc(nm, 1), alook(1)])
        raw = [r.randrange(256) for _ in range(90)]
        out.append([setabi(r, ab, "direct"), lit(raw), adec(b, 1), areenc(b, 1)])
        out.append([setabi(r, ab, "direct"), lit([r.randrange(4)] + raw), adec("va", 1), areenc("va", 1)])
    return out

def stream(r, ag, n, vg):
    """several values on one stream, mixed with typed ones"""
    ev1, ev2 = [], []
    for i in range(n):
        if r.random() < .2:
            t = T(r.choice(PRIM)); v = G(r).val(t)
            ev1.append(enc(t, v)); ev2.append(dec(t))
            continue
        k, nm = target(r, ag)
        v = vg.val(nm)
        if not small(v): continue
        ev1.append(aenc(nm, v, **k)); ev2.append(adec(nm, 0, **k))
    return ev1, ev2

def c12(r, n):
    out = builtins_all(r)
    r.shuffle(out); out = out[:max(60, n // 4)]
    while len(out) < n:
        ag = AG(r, shadow=r.random() < .3)
        ab = ag.ab
        vg = VG(r, ab)
        a, b = stream(r, ag, r.randrange(1, 5), vg)
        sc = [setabi(r, ab)] + a + [wire(ch=r.choice([[], [], [1], [3, 1]]))] + b
        # trailing garbage is left alone, corrupted data gives what the schema says
        k, nm = target(r, ag)
        sc += [wire(fl=[[r.randrange(1 << 16), r.choice([1, 2, 128, 255, r.randrange(1, 256)])]]), adec(nm, 0, **k), adec(nm, 0, **k)]
        sc += [lit(pyvar(r)), adec(nm, 0, **k), adec(nm, 0, **k)]
        sc += [actdec(r.choice([k.get("act", 5), nameval("nosuch")]), pyvar(r))]
        out.append(sc)
        v = vg.val(nm)
        if small(v): out.append([setabi(r, ab), aenc(nm, v, **k), acuts(nm, r.choice(["eof", "eof", "err"]), src="wire", max=24, **k)])
        for act in ab.actions[:1]:
            v = vg.val(act[1])
            if small(v): out.append([setabi(r, ab), aenc(act[1], v), wire(), adec("nosuch"), adec("", 0, "action", nameval("nosuch")), adec("", 0, "action", act[0])])
    # action data through Action.Decode: only built from encodable bytes of fixed shapes
    for _ in range(n // 10):
        ab = Abi()
        ab.structs.append(("t", "", [("a", "uint8"), ("b", "string"), ("c", "uint16?"), ("d", "uint8[]")]))
        ab.variants.append(("v", ["uint8", "t"])); ab.types.append(("al", "t"))
        for nm, t in (("x", "t"), ("y", "v"), ("z", "al"), ("w", "t[]"), ("o", "t?")): ab.actions.append((nameval(nm), t, ""))
        d = [r.randrange(256), 2, 104, 105, 1, 7, 8, 2, 1, 2]
        d = r.choice([d, d, d[:-1], d + [0], [1] + d, [0], [], [1, 5]])
        out.append([setabi(r, ab)] + [actdec(nameval(x), d) for x in ("x", "y", "z", "w", "o", "none")])
        t = r.choice([struct(T("u8"), T("str"), tag(ptr(T("u16")), "optional"), slc(T("u8"))), T("bytes"), T("u16"), T("asset"), T("action"), slc(T("str"))])
        out.append([ev("actinto", t=t, d=r.choice([d, d[1:], pyvar(r)]))])
    return out

def c13(r, n):
    out = builtins_all(r)
    r.shuffle(out); out = out[:max(60, n // 4)]
    while len(out) < n:
        ag = AG(r, shadow=r.random() < .3, exts=r.random() < .3)
        ab = ag.ab
        vg = VG(r, ab, G(r, big=r.random() < .3, bad=.03 if r.random() < .2 else 0))
        k, nm = target(r, ag)
        v = vg.val(nm)
        if not small(v): continue
        sc = [setabi(r, ab), aenc(nm, v, **k), aenc(nm, v, **k), wire(), adec(nm, 1, **k), areenc(nm, 1, **k)]
        if not any(f[1].endswith("$") for x in ab.structs for f in x[2]): sc += [adec(nm, 2, **k), areenc(nm, 2, **k)]
        sc += [alook(1)]
        # decoded from arbitrary bytes
        sc += [lit(pyvar(r)), adec(nm, 3, **k), areenc(nm, 3, **k), alook(3)]
        sc += [wire(fl=[[r.randrange(1 << 16), r.choice([1, 2, 128, r.randrange(1, 256)])]]), adec(nm, 4, **k), areenc(nm, 4, **k), alook(4), alook(1)]
        out.append(sc)
    return out

WEIRD = ["", "$", "?", "[]", "[]?$", "?$", "[]$", "[]?", "??", "[][]", "a?[]", "$$", "uint8$$", "uint8??", "uint8[][]", "uint8?[]", "[]uint8", " uint8", "uint8 ", "UINT8",
         "nosuch", "nosuch[]", "nosuch?", "uint256", "uint", "int", "float", "a", "z", "?[]", "x$?", "uint8$?", "string[]$?"]

def randval(r, ab, d=0):
    """a dynamic value of no type in particular, but with plausible shapes"""
    c = r.random()
    if d > 5: return leaf("u8", num(1))
    if c < .45:
        fs = {}
        for st in r.sample(ab.structs, min(2, len(ab.structs))):
            for f, _ in st[2]:
                if r.random() < .9: fs[f] = randval(r, ab, d + 1)
        return mapnode(fs)
    if c < .6: return V("slice", (), [randval(r, ab, d + 1) for _ in range(r.randrange(0, 3))])
    if c < .7:
        ts = [t for v in ab.variants for t in v[1]] or ["uint8"]
        return V("slice", (), [leaf("str", s(r.choice(ts))), randval(r, ab, d + 1)])
    if c < .8: return NIL
    k = r.choice(list(B.values()))
    return leaf(k, G(r).val(T(k)))

def malformed(r):
    ab = Abi()
    names = r.sample(["a", "b", "c", "d", "x", "loop", "S", "name", "uint8", "", "v"], r.randrange(1, 6))
    def any():
        c = r.random()
        if c < .7: return r.choice(names) + r.choice(["", "", "", "", "?", "[]", "[]?"])
        if c < .8: return r.choice(WEIRD)
        return r.choice(["uint8", "string", "bool", "name", "bytes"])
    for nm in names:
        c = r.random()
        if c < .5:
            fs = []
            for f in r.sample(["p", "q", "f"], r.choice([0, 1, 1, 2])): fs.append((f, any()))
            ab.structs.append((nm, r.choice(["", "", any()]), fs))
        elif c < .75: ab.types.append((nm, any()))
        else: ab.variants.append((nm, list(dict.fromkeys(any() for _ in range(r.randrange(0, 3))))))
    for x in ("go", "run"): ab.actions.append((nameval(x), any(), ""))
    return ab, names

def bad_for_us(ab):
    """leave out what the statement does not settle: optionals of optionals, extension aliases, and the like"""
    texts = [t for _, t in ab.types] + [t for _, _, f in ab.structs for _, t in f] + [t for _, ts in ab.variants for t in ts] + [b for _, b, _ in ab.structs] + [t for _, t, _ in ab.actions]
    if any("$" in t for t in texts): return True
    defined = [n for n, _ in ab.types] + [n for n, _, _ in ab.structs] + [n for n, _ in ab.variants]
    if any(split(n)[0] != n for n in defined): return True
    # struct or alias chains that add no bytes, under an array
    arrays = {split(t)[0] for t in texts if split(t)[1]}
    for b in arrays:
        if minbytes(ab, b, ()) == 0: return True
    if any(nullable(ab, split(t)[0]) for t in texts if split(t)[2]): return True
    # field names repeated along a base chain
    for n, _, _ in ab.structs:
        fs = [f for f, _ in ab.fields(n)]
        if len(fs) != len(set(fs)) and len(fs) < 20: return True
    return False

def nullable(ab, base, d=0):
    if ab.struct(base) or ab.variant(base) or d > 9: return False
    al = ab.alias(base)
    if not al: return False
    b, a, o, _ = split(al[1])
    return o or (not a and nullable(ab, b, d + 1))

def minbytes(ab, nm, seen):
    base, a, o, e = split(nm)
    if a or o: return 1
    if base in seen: return 0
    if ab.struct(base): return sum(minbytes(ab, t, seen + (base,)) for _, t in ab.fields(base))
    if ab.variant(base): return 1
    if ab.alias(base): return minbytes(ab, ab.alias(base)[1], seen + (base,))
    return 1

FIXED = [
    # (types, structs, variants, names to try)
    ([("a", "a")], [], [], ["a", "a[]", "a?"]),
    ([("a", "b"), ("b", "a")], [], [], ["a", "b", "a[]"]),
    ([("a", "b"), ("b", "c"), ("c", "a")], [], [], ["a", "c"]),
    ([("a", "a[]")], [], [], ["a", "a?"]),
    ([], [("a", "a", [("x", "uint8")])], [], ["a", "a[]", "a?"]),
    ([], [("a", "b", [("x", "uint8")]), ("b", "a", [("y", "uint8")])], [], ["a", "b"]),
    ([("al", "a")], [("a", "al", [("x", "uint8")])], [], ["a", "al"]),
    ([("al", "al2"), ("al2", "al")], [("a", "al", [("x", "uint8")])], [], ["a", "al"]),
    ([], [("a", "", [("x", "a")])], [], ["a", "a[]", "a?"]),
    ([], [("a", "", [("x", "b")]), ("b", "", [("y", "a")])], [], ["a", "b"]),
    ([], [("a", "", [("x", "a?")])], [], ["a", "a[]"]),
    ([], [("a", "", [("n", "uint8"), ("x", "a[]")])], [], ["a"]),
    ([], [("a", "", [("x", "v")])], [("v", ["a"])], ["a", "v"]),
    ([], [("a", "", [("x", "v")])], [("v", ["uint8", "a"])], ["a", "v", "v[]"]),
    ([], [], [("v", ["v"])], ["v"]),
    ([], [], [("v", ["uint8", "v"])], ["v"]),
    ([], [], [("v", [])], ["v", "v?", "v[]"]),
    ([], [("e", "", [])], [], ["e", "e?"]),
    ([], [("e", "", []), ("f", "e", [])], [], ["e", "f", "f?"]),
    ([], [("e", "", []), ("f", "e", [("x", "e"), ("y", "uint8")])], [], ["f"]),
    ([], [("a", "nosuch", [("x", "uint8")])], [], ["a"]),
    ([], [("a", "uint8", [("x", "uint8")])], [], ["a"]),
    ([], [("a", "b[]", [("x", "uint8")]), ("b", "", [("y", "uint8")])], [], ["a"]),
    ([], [("a", "b?", [("x", "uint8")]), ("b", "", [("y", "uint8")])], [], ["a"]),
    ([], [("a", "b$", [("x", "uint8")]), ("b", "", [("y", "uint8")])], [], ["a"]),
    ([], [("a", "v", [("x", "uint8")])], [("v", ["uint8"])], ["a"]),
    ([("al", "b")], [("a", "al", [("x", "uint8")]), ("b", "", [("y", "uint8")])], [], ["a"]),
    ([("al", "b[]")], [("a", "al", [("x", "uint8")]), ("b", "", [("y", "uint8")])], [], ["a"]),
    ([("al", "b?")], [("a", "al", [("x", "uint8")]), ("b", "", [("y", "uint8")])], [], ["a"]),
    ([], [("uint8", "nosuch", [])], [], ["uint8"]),
    ([("name", "uint8")], [("bool", "", [("x", "name")])], [("string", ["bool", "name"])], ["name", "bool", "string", "string[]"]),
    ([], [("a", "", [("x", "nosuch")])], [], ["a", "a[]", "a?"]),
    ([], [("a", "", [("x", "nosuch?")])], [], ["a"]),
    ([], [("a", "", [("x", "")])], [], ["a"]),
    ([("a", "")], [], [], ["a"]),
    ([("", "uint8")], [], [], ["", "[]", "?", "$"]),
    ([], [("", "", [("x", "uint8")])], [], ["", "[]", "?"]),
    ([], [], [("", ["uint8"])], ["", "?", "[]"]),
    ([("x", "uint8"), ("x", "string")], [("s", "", [("a", "x")]), ("s", "", [("b", "bool")])], [("v", ["x", "s"]), ("v", ["s"])], ["x", "s", "v"]),
]

SELF = V("self")
def cyclic(r):
    """Go values that contain themselves"""
    ab = Abi()
    ab.structs = [("n", "", [("v", "uint8"), ("kids", "n[]")]), ("o", "", [("v", "uint8"), ("next", "o?")]), ("w", "", [("c", "vv")]), ("d", "n", [("more", "d$")]),
                  ("al", "", [("x", "toal")])]
    ab.variants = [("vv", ["uint8", "w"])]
    ab.types = [("toal", "al[]")]
    u = leaf("u8", num(3))
    vs = [("n", {"v": u, "kids": V("slice", (), [SELF])}), ("n", {"v": u, "kids": V("slice", (), [mapnode({"v": u, "kids": V("slice")}), SELF, SELF])}),
          ("n", {"v": u, "kids": V("slice", (), [mapnode({"v": u, "kids": V("slice", (), [SELF])})])}), ("o", {"v": u, "next": SELF}),
          ("o", {"v": u, "next": mapnode({"v": u, "next": SELF})}), ("w", {"c": V("slice", (), [leaf("str", s("w")), SELF])}), ("al", {"x": V("slice", (), [SELF])}),
          ("d", {"v": u, "kids": V("slice"), "more": SELF}), ("d", {"v": u, "kids": V("slice", (), [SELF])}), ("n", {"v": SELF, "kids": V("slice")})]
    return [[setabi(r, ab), aenc(nm, mapnode(v)), aenc(nm + r.choice(["?", "", "$"]), mapnode(v))] for nm, v in vs for _ in range(2)]

def c14(r, n):
    out = []
    for ty, st, va, nms in FIXED:
        ab = Abi(); ab.types, ab.structs, ab.variants = ty, st, va
        for i, nm in enumerate(nms): ab.actions.append((nameval("abcde"[i]), nm, ""))
        for i, nm in enumerate(nms):
            for data in ([], [0], [1], [1, 1], [0, 0, 0], [1] * 60, [1, 0, 1, 0, 2, 5, 0], [5, 6, 7, 8, 9]):
                k = {"by": "action", "act": nameval("abcde"[i])} if r.random() < .4 else {}
                out.append([setabi(r, ab), lit(data), adec(nm, 1, meas=True, **k), areenc(nm, 1, **k)])
            for _ in range(4):
                k = {"by": "action", "act": nameval("abcde"[i])} if r.random() < .4 else {}
                out.append([setabi(r, ab), aenc(nm, randval(r, ab), **k)])
            try: v = VG(r, ab).val(nm)
            except (KeyError, RecursionError, IndexError): continue
            if small(v): out.append([setabi(r, ab), aenc(nm, v), wire(), adec(nm)])
    out += cyclic(r)
    # deep nesting: up to the limit values must work
    for d in (1, 5, 20, 36, 39, 45, 48, 100, 126, 127, 128, 129, 200):
        ab = Abi(); ab.structs = [("a", "", [("x", "a?")])]; ab.types = [("t0", "uint8")] + [("t%d" % i, "t%d" % (i - 1)) for i in range(1, d)]
        ab.variants = [("v", ["uint8", "v"])]
        v = mapnode({"x": NIL})
        w = V("slice", (), [leaf("str", s("uint8")), leaf("u8", num(7))])
        for i in range(d - 1):
            v = mapnode({"x": v})
            w = V("slice", (), [leaf("str", s("v")), w])
        if d < 50:
            out.append([setabi(r, ab, "direct"), aenc("a", v), wire(), adec("a")])
            out.append([setabi(r, ab, "direct"), aenc("v", w), wire(), adec("v")])
        out.append([setabi(r, ab, "direct"), lit([1] * (d * 20) + [0]), adec("a"), adec("v"), adec("a[]")])
        out.append([setabi(r, ab, "direct"), aenc("t%d" % (d - 1), leaf("u8", num(9))), wire(), adec("t%d" % (d - 1))])
        # long base chains
        ab = Abi(); ab.structs = [("s0", "", [("f0", "uint8")])] + [("s%d" % i, "s%d" % (i - 1), [("f%d" % i, "uint8")]) for i in range(1, d)]
        nm = "s%d" % (d - 1)
        out.append([setabi(r, ab, "direct"), aenc(nm, VG(r, ab).val(nm)), wire(), adec(nm)])
    for nm in WEIRD:
        ag = AG(r)
        out.append([setabi(r, ag.ab, "direct"), lit(pyvar(r)), adec(nm), adec(nm), aenc(nm, randval(r, ag.ab)), aenc(nm, leaf("u8", num(3))), aenc(nm, NIL), aenc(nm, V("slice"))])
    if len(out) > n * .7: r.shuffle(out); out = out[:int(n * .7)]
    for b in r.sample(sorted(B), 12):       # definitions by the name of a built-in are used, though they are broken
        v = VG(r, Abi()).val(b)
        if "float" in b: continue
        for form in range(4):
            ab = Abi()
            if form < 2: ab.structs = [(b, r.choice(["nosuch", b, "k", b + "[]"]) if form else "k", [("x", "uint8")] if r.random() < .5 else []), ("j", "", [])]; ab.types = [("k", r.choice(["uint8", "j[]", "j?", "nosuch", "k"]))]
            elif form == 2: ab.variants = [(b, [])]
            else: ab.types = [(b, r.choice([b, "nosuch", "k"])), ("k", b)]
            if bad_for_us(ab): continue
            nm = r.choice([b, b, b + "[]", b + "?", b + "$"])
            w = V("slice", (), [v]) if nm.endswith("[]") else v
            out.append([setabi(r, ab, "direct"), aenc(nm, w), lit([1] * 60), adec(nm), aenc(b, v)])
    while len(out) < n:
        ab, names = malformed(r)
        if bad_for_us(ab): continue
        sc = [setabi(r, ab)]
        for nm in r.sample(names, min(2, len(names))):
            k = r.choice([{}, {}, {"by": "action", "act": nameval("go")}])
            sc += [lit(r.choice([[], [0], [1] * 50, [0] * 20, pyvar(r)])), adec(nm, 1, meas=True, **k), areenc(nm, 1, **k)]
            sc += [aenc(nm, randval(r, ab), **k)]
            try: v = VG(r, ab).val(nm)
            except (KeyError, RecursionError, IndexError): v = None
            if v and small(v): sc += [aenc(nm, v)]
        sc += [actdec(nameval(r.choice(["go", "run", "none"])), pyvar(r))]
        out.append(sc)
    return out

def spots(v, path=()):
    out = [path]
    for i, x in enumerate(v["e"]):
        if v["k"] in ("map", "slice", "f"): out += spots(x, path + (i,))
    return out

def at(v, p):
    for i in p: v = v["e"][i]
    return v

def replace(v, p, x):
    if not p: return x
    e = list(v["e"]); e[p[0]] = replace(e[p[0]], p[1:], x)
    return {"k": v["k"], "b": v["b"], "e": e}

ODD = 66      # number of Go values in the driver's list that no type describes
ALLK = sorted(set(B.values()) | {"u64", "bytes", "nu64", "ni32", "u24", "blob", "perm", "action", "txhdr", "blocknum", "abifield"})

def misfit(r, v):
    """v with one spot spoiled (the specification says whether it still fits)"""
    sp = [p for p in spots(v) if at(v, p)["k"] != "f"]
    p = r.choice(sp); x = at(v, p)
    c = r.random()
    if x["k"] == "map":
        if c < .35 and x["e"]:
            e = list(x["e"]); e.pop(r.randrange(len(e)))
            return replace(v, p, V("map", (), e))
        if c < .5 and x["e"]:
            d = {bytes(f["b"]).decode(): f["e"][0] for f in x["e"]}; d[r.choice(list(d))] = NIL
            return replace(v, p, mapnode(d))
        if c < .6:
            d = {bytes(f["b"]).decode(): f["e"][0] for f in x["e"]}; d["extra_" + str(r.randrange(9))] = leaf("u8", num(1))
            return replace(v, p, mapnode(d))
        if c < .7: return replace(v, p, V("slice", (), [f["e"][0] for f in x["e"]]))
    if x["k"] == "slice":
        if c < .15 and x["e"]: return replace(v, p, V("slice", (), x["e"][:-1]))
        if c < .3: return replace(v, p, V("slice", (), x["e"] + [r.choice([NIL, leaf("u8", num(1)), x["e"][0] if x["e"] else NIL])]))
        if c < .4 and len(x["e"]) == 2: return replace(v, p, V("slice", (), x["e"][::-1]))
        if c < .5 and x["e"] and x["e"][0]["k"] == "str": return replace(v, p, V("slice", (), [leaf("str", s(r.choice(["nosuch", "", "uint8", "UINT8", "uint8[]"])))] + x["e"][1:]))
        if c < .6 and x["e"]: return replace(v, p, mapnode({"a": x["e"][0]}))
    if c < .75: return replace(v, p, V("go", [r.randrange(ODD)]))
    if c < .85: return replace(v, p, NIL)
    k = r.choice(ALLK)
    return replace(v, p, leaf(k, G(r, bad=.1).val(T(k))))

def c15(r, n):
    out = cyclic(r)
    # every built-in against every kind of Go value
    ks = ALLK
    ab = Abi(); ab.structs.append(("w", "", [("f", "uint8")])); ab.variants.append(("va", ["uint8", "w"])); ab.types.append(("al", "w"))
    for b in list(B) + ["w", "va", "al", "uint8[]", "w?", "w[]"]:
        sc = [setabi(r, ab, "direct")]
        for k in ks:
            sc.append(aenc(b, leaf(k, G(r).val(T(k)))))
            if T(k)["t"] in PRIM and k not in ("str", "bytes", "bool", "f32", "f64"): sc.append(aenc(b, leaf(k, num(r.randrange(100)))))
        sc += [aenc(b, NIL), aenc(b, V("map")), aenc(b, V("slice"))]
        out.append(sc)
        out.append([setabi(r, ab, "direct")] + [aenc(b, V("go", [i])) for i in range(ODD)])
    while len(out) < n:
        ag = AG(r, shadow=r.random() < .2, exts=r.random() < .2)
        ab = ag.ab
        vg = VG(r, ab)
        sc = [setabi(r, ab)]
        for _ in range(3):
            k, nm = target(r, ag)
            v = vg.val(nm)
            if not small(v, 800): continue
            for _ in range(3): sc.append(aenc(nm, misfit(r, v), **k))
        sc.append(aenc("", randval(r, ab), -1, "action", nameval(r.choice(["nosuch", "transfer"]))))
        if len(sc) > 2: out.append(sc)
    return out

def c16(r, n):
    out = []
    while len(out) < n:
        ag = AG(r, exts=True)
        ab = ag.ab
        vg = VG(r, ab)
        v = vg.val("main")
        if not small(v): continue
        fs = ab.fields("main"); ex = [f for f, t in fs if t.endswith("$")]
        d = {bytes(f["b"]).decode(): f["e"][0] for f in v["e"]}
        c = r.random()
        if c < .5:
            for f in ex[r.randrange(len(ex) + 1):]:
                if r.random() < .8: d.pop(f, None)
                else: d[f] = NIL
        elif c < .75:
            for f in ex:
                if r.random() < .4:
                    if r.random() < .6: d.pop(f, None)
                    else: d[f] = NIL
        w = mapnode(d)
        k = {}
        if r.random() < .3: ab.actions.insert(0, (nameval("zz"), "main", "")); k = {"by": "action", "act": nameval("zz")}
        out.append([setabi(r, ab), aenc("main", w, **k), wire(en=r.choice(["eof", "eof", "eof", "err"]), ch=r.choice(CHS)), adec("main", 1, **k), areenc("main", 1, **k), alook(1)])
        out.append([setabi(r, ab), aenc("main", v, **k), acuts("main", r.choice(["eof", "eof", "err"]), src="wire", max=30, ch=r.choice([[], [1]]), **{"with": r.random() < .3}, **k)])
        j = r.randrange(2, 1000)
        out.append([setabi(r, ab), aenc("main", v, **k), wire(cut=j), adec("main", 1, **k), areenc("main", 1, **k), alook(1)])
    return out

def c17(r, n):
    out = []
    g = G(r, big=True)
    t = T("abi")
    while len(out) < n:
        c = r.random()
        if c < .35:
            v = g.val(t)
            out.append([enc(t, v, r.choice(PATHS), r.choice(["val", "ptr"])), wire(), dec(t, 1, r.choice(PATHS)), ev("look", t=t, sl=1), ev("encs", t=t, sl=1, path=r.choice(PATHS), by="val")])
        elif c < .5:
            v = g.val(t)
            if r.random() < .5: v["e"][8] = V("q")
            out.append([enc(t, v), ev("cuts", t=t, src="wire", en="eof", path=r.choice(PATHS), by="ptr", max=24, ch=[])])
        elif c < .7:
            # from before variants existed
            v = g.val(t); v["e"][8] = V("q")
            out.append([enc(t, v), wire(cut=0), dec(t, 1)])
            sc = [ev("poke", t=t, v=g.val(t), sl=1)] if r.random() < .5 else []
            d = lambda: [r.randrange(97, 123)]
            raw = [1] + d() + [0, 0, 0, 0, 0, 0, 0]
            out.append(sc + [lit(raw), dec(t, 1, r.choice(PATHS)), ev("look", t=t, sl=1), lit(raw + [0]), dec(t, 1), lit(raw + [1, 1, 65, 1, 1, 66]), dec(t, 1), lit(raw + [1, 1, 65]), dec(t, 2)])
        else:
            ag = AG(r, shadow=r.random() < .3)
            ab = ag.ab
            if r.random() < .6:      # entries of the same name
                for l in (ab.types, ab.structs, ab.actions, ab.tables, ab.variants):
                    if l and r.random() < .7:
                        x = list(r.choice(l)); y = r.choice(l)
                        l.insert(r.randrange(len(l) + 1), tuple([x[0]] + list(y[1:])))
            ab.clauses = [(r.choice(["", "c1"]), "body \u00e9 <>&") for _ in range(r.randrange(3))]
            ab.errs = [(bits(r, 64), r.choice(["", "oops"])) for _ in range(r.randrange(3))]
            ab.exts = [(bits(r, 16), bytestr(r)) for _ in range(r.randrange(3))]
            ab.version = r.choice(["", "eosio::abi/1.0", "eosio::abi/1.2", "x"])
            sc = [setabi(r, ab, f) for f in r.sample(["direct", "bin", "plain", "json"], 2)]
            for form, l in (("type", ab.types), ("struct", ab.structs), ("variant", ab.variants)):
                for x in r.sample(l, min(2, len(l))): sc.append(lookup(form, x[0]))
                sc.append(lookup(form, r.choice(["nosuch", "", "a", "uint8", "S"])))
            for form, l in (("action", ab.actions), ("table", ab.tables)):
                for x in r.sample(l, min(2, len(l))): sc.append(lookup(form, "", x[0]))
                sc.append(lookup(form, "", nameval(r.choice(["nosuch", "", "a", "transfer"]))))
            out.append(sc)
    return out

# the ABI-driven parts of C06, C08, C09, C10, C11
def hostile(r, n):
    out = []
    ab = Abi()
    ab.structs.append(("s", "", [("a", "uint8"), ("b", "string"), ("c", "s[]"), ("d", "bytes?"), ("e", "v[]")]))
    ab.variants.append(("v", ["uint8", "s", "string", "uint64[]"])); ab.types.append(("l", "s[]"))
    ab.structs.append(("x", "s", [("f", "checksum512[]"), ("g", "asset[]?$")]))
    ab.actions.append((nameval("go"), "x", ""))
    nms = ["s", "x", "v", "l", "s[]", "v[]", "string", "bytes", "string[]", "bytes[]", "uint8[]", "checksum512[]", "public_key", "public_key[]", "signature", "v?", "uint128[]"]
    for nm in nms:
        for h in HUGE:
            for pre in ([], [7], [1], [3], [7, 0], [7, 0, 0], [2] + [1] * 34, [2] + [1] * 65):
                if nm in ("public_key", "signature") or len(pre) < 20:
                    out.append([setabi(r, ab, "direct"), lit(pre + h + [r.randrange(256) for _ in range(r.randrange(0, 12))]), adec(nm, 0, meas=True)])
    r.shuffle(out); out = out[:n // 2]
    while len(out) < n:
        ag = AG(r, exts=r.random() < .3)
        k, nm = target(r, ag)
        v = VG(r, ag.ab).val(nm)
        if not small(v): continue
        out.append([setabi(r, ag.ab, "direct"), aenc(nm, v, **k), wire(fl=[[r.randrange(1 << 16), r.choice([1, 128, 255, r.randrange(1, 256)])] for _ in range(r.randrange(1, 4))]), adec(nm, 0, meas=True, **k),
                    lit(pyvar(r)), adec(nm, 0, meas=True, **k)])
    return out

def faults(r, n):
    out = []
    while len(out) < n:
        ag = AG(r, exts=r.random() < .3)
        k, nm = target(r, ag)
        v = VG(r, ag.ab).val(nm)
        if not small(v, 600): continue
        out.append([setabi(r, ag.ab, "direct"), afaults(nm, v, max=r.choice([20, 20, 80]), short=r.random() < .5, once=r.random() < .6, **k)])
    return out

def chunks(r, n):
    out = []
    while len(out) < n:
        ag = AG(r, exts=r.random() < .3)
        k, nm = target(r, ag)
        v = VG(r, ag.ab).val(nm)
        if not small(v, 600): continue
        sc = [setabi(r, ag.ab, "direct"), aenc(nm, v, **k)]
        for ch in r.sample(CHS, 3): sc += [wire(ch=ch, **{"with": r.random() < .5}, en=r.choice(["eof", "err"])), adec(nm, 0, **k)]
        out.append(sc)
        once = r.random() < .5
        out.append([setabi(r, ag.ab, "direct"), aenc(nm, v, **k), acuts(nm, "err", src="wire", max=r.choice([16, 16, 60]), ch=r.choice(CHS), once=once, **{"with": r.random() < .5 and not once}, **k)])
    return out

def mix(*parts):
    """parts: (generator, share)"""
    def gen(r, n):
        out = []
        for g, share in parts: out += g(r, max(1, int(n * share)))
        return out
    return gen

def hugeabi(r, n):
    """a list of very many equal values of one built-in"""
    out = []
    g = VG(r, Abi(), G(r))
    for k in (1, 2, 3):         # few, but long ones
        for b in ("string", "bytes"):
            if len(out) < n // 3: out.append([ev("ahuge", nm=list(b.encode()), v={"k": g.val(b)["k"], "b": [], "e": [V("s", [r.choice([65, 0x7a])] * r.choice([1000, 4095, 5000, 8000]))]}, n=k)])
    while len(out) < n:
        b = r.choice([x for x in B if "float" not in x])
        v = g.val(b)
        k = r.choice([127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 16383, 16384, 16385, 65535, 65536, 65537])
        if small(v, 60): out.append([ev("ahuge", nm=list(b.encode()), v=v, n=k)])
    return out

def suffixes(r, n):
    """the same type with and without each suffix in one struct, in any order; extensions absent and present"""
    out = []
    while len(out) < n:
        ag = AG(r, rec=False)
        ab = ag.ab
        b = r.choice(ag.names + ["uint8", "string", "asset"])
        if ag.minsize(b) == 0 or ag.nullable(b): continue
        ts = [b, b + "?", b + "[]", b + "[]?"]
        fs = [r.choice(ts) for _ in range(r.randrange(0, 4))]
        es = [r.choice(ts) + "$" for _ in range(r.randrange(1, 4))]
        ab.structs.append(("suf", "", [("f%d" % i, t) for i, t in enumerate(fs + es)]))
        vg = VG(r, ab)
        v = vg.val("suf")
        if not small(v, 500): continue
        out.append([setabi(r, ab), aenc("suf", v), acuts("suf", "eof", src="wire", max=24)])
        d = {bytes(f["b"]).decode(): f["e"][0] for f in v["e"]}
        for i in range(r.randrange(len(fs), len(fs) + len(es) + 1), len(fs) + len(es)): del d["f%d" % i]
        out.append([setabi(r, ab), aenc("suf", mapnode(d)), wire(), adec("suf", 1), areenc("suf", 1), alook(1)])
    return out

def families(r, n):
    """structs that share bases, three and more levels deep, side by side in one type; variants that list a type twice"""
    out = []
    while len(out) < n:
        ab = Abi()
        ts = ["uint8", "uint16", "bool", "string", "name", "uint8?", "uint8[]", "varuint32"]
        names, k = [], 0
        for root in range(r.choice([1, 1, 2])):
            level = ["r%d" % root]
            ab.structs.append((level[0], "", [("f%d" % (k + j), r.choice(ts)) for j in range(r.choice([1, 2, 3, 4, 5, 5, 6, 7]))])); k += 8
            names += level
            for d in range(r.randrange(1, 4)):
                new = []
                for b in level:
                    for c in range(r.choice([1, 2, 2, 3])):
                        if len(names) > 9: break
                        nm = "%s_%d" % (b, c)
                        bs = b
                        if r.random() < .2: bs = "A" + nm; ab.types.append((bs, b))
                        ab.structs.append((nm, bs, [("f%d" % (k + j), r.choice(ts)) for j in range(r.choice([0, 1, 1, 1, 2, 3]))])); k += 8
                        new.append(nm)
                names += new
                level = new or level
        if r.random() < .5: r.shuffle(ab.structs)
        alts = [r.choice(names + ["uint8", "string"]) for _ in range(r.randrange(2, 6))]
        alts += [r.choice(alts) for _ in range(r.randrange(0, 3))]
        ab.variants.append(("va", alts))
        kin = [[x for x in names if x[:-2] == b] for b in names]
        kin = [x for x in kin if len(x) > 1] or [names]
        pick = r.choice([r.choice(kin), r.choice(kin), r.sample(names, min(len(names), 4))]) + r.sample(names, r.randrange(0, 3))
        suf = lambda: "" if r.random() < .8 else r.choice(["?", "[]"])
        top = [("p%d" % i, x + suf()) for i, x in enumerate(pick + r.sample(pick, r.randrange(1, len(pick) + 1)))]
        top += [("va%d" % i, r.choice(["va", "va[]", "va?"])) for i in range(r.randrange(0, 3))]
        if r.random() < .3: r.shuffle(top)
        ab.structs.append(("top", "", top))
        ab.actions.append((nameval("go"), "top", ""))
        vg = VG(r, ab)
        a, b = [], []
        for nm in ["top"] + [r.choice(names + ["va", "top"]) for _ in range(r.randrange(1, 4))]:
            v = vg.val(nm)
            if small(v, 600): a.append(aenc(nm, v)); b.append((nm, len(b) + 1))
        sc = [setabi(r, ab)] + a + [wire()] + [adec(nm, i) for nm, i in b] + [areenc(nm, i) for nm, i in b] + [alook(i) for nm, i in b[:1]]
        out.append(sc)
        for c in (0, 4):
            sc = [setabi(r, ab)]
            for i in range(c, min(c + 4, len(alts))): sc += [lit([i, 1, 97] + pyvar(r)), adec("va", i - c + 1), areenc("va", i - c + 1)]
            if len(sc) > 1: out.append(sc)
    return out

def owners(r, n):
    """decoded objects belong to whoever decoded them"""
    out = []
    while len(out) < n:
        ag = AG(r)
        if r.random() < .6:     # what is held by reference
            ag.ab.structs.insert(0, ("own", "", [("f%d" % i, r.choice(["bytes", "bytes", "public_key", "signature"]) + r.choice(["", "", "[]", "?"])) for i in range(r.randrange(1, 5))]))
            k, nm = {}, r.choice(["own", "own", "own[]", "bytes", "bytes[]"])
        else: k, nm = target(r, ag)
        v = VG(r, ag.ab).val(nm)
        if not small(v, 500): continue
        sp = lambda i: ev("aspoil", sl=i)
        out.append([setabi(r, ag.ab), aenc(nm, v, **k), wire(), adec(nm, 1, **k), wire(), adec(nm, 2, **k), sp(1), alook(2), wire(), adec(nm, 3, **k), alook(3), sp(2), alook(3),
                    areenc(nm, 3, **k), wire(), adec(nm, 1, **k), alook(1)])
    return out

def reuse(r, n):
    """the ABI half of C11: definitions, values and bytes are used again and again"""
    out = []
    while len(out) < n:
        ag = AG(r)
        ab = ag.ab
        vg = VG(r, ab)
        k, nm = target(r, ag)
        k2, nm2 = target(r, ag)
        v = vg.val(nm); v2 = vg.val(nm2)
        if not (small(v, 500) and small(v2, 500)): continue
        sc = [setabi(r, ab), aenc(nm, v, **k), aenc(nm2, v2, **k2), aenc(nm, v, **k), aenc(nm, misfit(r, v), **k), aenc(nm, v, **k)]
        sc += [wire(), adec(nm, 1, **k), adec(nm2, 2, **k2), alook(1), adec(nm, 3, **k), areenc(nm, 1, **k), alook(1), alook(2), areenc(nm2, 2, **k2), alook(3), areenc(nm, 1, **k)]
        out.append(sc)
        d = pyvar(r)
        if ab.actions: out.append([setabi(r, ab)] + [actdec(r.choice(ab.actions)[0], d) for _ in range(3)])
        t = r.choice([T("bytes"), T("cbytes"), T("action"), T("str"), slc(T("cbytes")), struct(T("u8"), T("blob")), T("tx")])
        out.append([ev("actinto", t=t, d=[r.randrange(1, 9)] + pyvar(r)) for _ in range(2)])
    return out

WIDE = [17, 33, 65, 127, 128, 129, 255, 256, 257, 300]

def edited(r, ab):
    """a definition that differs from ab in a few entries"""
    ab = copy.deepcopy(ab)
    some = [n for n, _, f in ab.structs] + [n for n, _ in ab.types] + [n for n, _ in ab.variants]
    for _ in range(r.choice([1, 1, 2, 3])):
        c = r.random()
        if c < .35 and ab.structs:
            i = r.randrange(len(ab.structs)); n, b, f = ab.structs[i]; f = list(f)
            d = r.random()
            if f and d < .5: j = r.randrange(len(f)); f[j] = (f[j][0], r.choice(sorted(B)) + r.choice(["", "", "[]", "?"]))
            elif f and d < .65: r.shuffle(f)
            elif f and d < .8: j = r.randrange(len(f)); f[j] = (f[j][0] + "2", f[j][1])
            elif d < .9: f.append(("extra", r.choice(sorted(B))))
            else: b = ""
            ab.structs[i] = (n, b, f)
        elif c < .5 and ab.types:
            i = r.randrange(len(ab.types)); ab.types[i] = (ab.types[i][0], r.choice(sorted(B)) + r.choice(["", "[]"]))
        elif c < .65 and ab.variants:
            i = r.randrange(len(ab.variants)); n, ts = ab.variants[i]; ts = list(ts)
            if r.random() < .5: r.shuffle(ts)
            else:
                ts[r.randrange(len(ts))] = r.choice(sorted(B)); ts = list(dict.fromkeys(ts))
            ab.variants[i] = (n, ts)
        elif c < .8 and ab.actions:
            i = r.randrange(len(ab.actions)); n, t, x = ab.actions[i]; ab.actions[i] = (n, r.choice(some or ["uint8"]), x)
        elif c < .9 and some:     # a name changes its meaning
            n = r.choice(some)
            ab.types = [x for x in ab.types if x[0] != n]; ab.variants = [x for x in ab.variants if x[0] != n]
            if not ab.struct(n): ab.structs.append((n, "", [("new", r.choice(sorted(B)))]))
            else: ab.types.append((n, "uint8"))
        elif ab.structs: r.shuffle(ab.structs)
    return ab

def history(r, n):
    """a definition that is changed while it is in use, in place or by a new one, and back again"""
    out = []
    while len(out) < n:
        ag = AG(r, shadow=r.random() < .3)
        abs_ = [ag.ab]
        for _ in range(r.choice([1, 1, 2])): abs_.append(edited(r, abs_[-1]))
        if any(bad_for_us(x) for x in abs_): continue
        order = list(range(len(abs_))) + ([0] if r.random() < .5 else [])
        names = r.sample(ag.names, min(3, len(ag.names)))
        sc = []
        try:
            for j, i in enumerate(order):
                x = abs_[i]
                e = setabi(r, x)
                if j: e["mod"] = r.random() < .7
                sc.append(e)
                vg = VG(r, x)
                for nm in names:
                    v = vg.val(nm)
                    if small(v, 300): sc += [aenc(nm, v), wire(), adec(nm, 1), areenc(nm, 1)]
                if x.actions:
                    a, t, _ = r.choice(x.actions); t = next(z[1] for z in x.actions if z[0] == a)
                    v = vg.val(t)
                    if small(v, 300): sc += [aenc(t, v, by="action", act=a), wire(), adec(t, 1, by="action", act=a)]
                for form, l in (("type", x.types), ("struct", x.structs), ("variant", x.variants)):
                    for nm in names: sc.append(lookup(form, nm))
        except (RecursionError, KeyError, IndexError): continue
        out.append(sc)
    return out

def wideabi(r, n):
    """definitions and values with very many fields, alternatives, elements or entries"""
    out = []
    tys = lambda: r.choice(["uint8", "uint8", "uint16", "string", "bool", "name", "varuint32", "uint8?", "uint8[]", "symbol_code", "int16"])
    while len(out) < n:
        ab, k = Abi(), r.choice(WIDE)
        c = len(out) % 6
        kw = {}
        if c == 0:          # fields, some of them of a base
            j = r.choice([0, 1, k // 2, k - 1])
            fs = [("f%d" % i, tys()) for i in range(k)]
            ab.structs = [("b", "", fs[:j]), ("w", "b" if j else "", fs[j:])]
            nm = "w"
        elif c == 1:        # alternatives
            ab.types = [("a%d" % i, tys()) for i in range(k)]
            ab.variants = [("w", ["a%d" % i for i in range(k)])]
            nm = r.choice(["w", "w[]", "w?"])
        elif c == 2:        # elements
            ab.structs = [("e", "", [("x", "uint8"), ("y", tys())])]
            ab.variants = [("v", ["uint8", "e"])]
            nm = r.choice(["e[]", "v[]", "string[]", "uint8[]", "e[]?"])
        else:               # entries
            ab.structs = [("s%d" % i, "", [("x%d" % (i % 3), tys())]) for i in range(k)]
            ab.types = [("t%d" % i, r.choice([tys(), "s%d" % r.randrange(k)])) for i in range(r.choice([3, k]))]
            ab.variants = [("v%d" % i, ["uint8", "t%d" % r.randrange(3), "s%d" % r.randrange(k)]) for i in range(r.choice([2, k]))]
            ab.actions = [(1000 + i, r.choice(["s%d", "s%d", "t%d", "v%d"]) % r.randrange(2) if i % 7 else "s%d" % (k - 1), "") for i in range(r.choice([2, k]))]
            ab.tables = [(1000 + i, "i64", [], [], "s0") for i in range(r.choice([2, k]))]
            ab.errs = [(i, "e") for i in range(r.choice([0, k]))]
            nm = r.choice([ab.structs, ab.types, ab.variants])[-1][0]
            if r.random() < .4: a = ab.actions[-1]; nm = a[1]; kw = {"by": "action", "act": a[0]}
        vg = VG(r, ab)
        if c == 2:
            base = split(nm)[0]
            vg.n = 0
            v = V("slice", (), [vg.inner(base, 5) for _ in range(k)])
        elif c == 1:
            i = r.choice([k - 1, k - 1, min(k - 1, 127), min(k - 1, 128), r.randrange(k)])
            vg.n = 0
            v = V("slice", (), [leaf("str", s_("a%d" % i)), vg.val("a%d" % i, 1)])
            if nm == "w[]": v = V("slice", (), [v, v])
        else: v = vg.val(nm)
        sc = [setabi(r, ab), aenc(nm, v, **kw), wire(ch=r.choice([[], [], [1], [100]])), adec(nm, 1, **kw), areenc(nm, 1, **kw)]
        x = r.random()
        if x < .3: sc += [acuts(nm, r.choice(["eof", "err"]), src="wire", max=10, **kw)]
        elif x < .5: sc += [aenc(nm, misfit(r, v), **kw)]
        if c > 2:
            for form, l in (("type", ab.types), ("struct", ab.structs), ("variant", ab.variants)):
                sc += [lookup(form, l[-1][0]), lookup(form, r.choice(l)[0]), lookup(form, "nosuch")]
            for form, l in (("action", ab.actions), ("table", ab.tables)):
                sc += [lookup(form, "", l[-1][0]), lookup(form, "", r.choice(l)[0]), lookup(form, "", 5)]
        out.append(sc)
    return out

s_ = s
