"""Scripts for text forms, digests and hash objects (C18-C27)."""
import base64, datetime, random
from nodes import *
from rmd import *

def ev(op, **k):
    d = {"op": op}; d.update(k); return d
def S_(s): return list(s.encode("utf-8", "surrogateescape")) if isinstance(s, str) else list(s)
def prt(t, v, form="text"): return ev("print", t=T(t), v=v, form=form)
def par(t, s, v=None, form="text"): return ev("parse", t=T(t), s=S_(s), v=v if v is not None else zero(T(t)), form=form)
PF = ["text", "textv", "str", "json", "jsonp"]
QF = ["text", "new", "json"]
ZONES = ["UTC", "plus", "minus", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Europe/Dublin", "Pacific/Apia"]

def ascii_ok(s): return all(c < 128 for c in S_(s))
def aform(r): return r.choice(["text", "new", "must"])
def pform(r, s): return r.choice(QF) if ascii_ok(s) else r.choice(["text", "new"])

def both(r, t, v, text=None):
    """print in some forms, parse the text into a used variable"""
    g = G(r)
    s = [prt(t, v, f) for f in r.sample(PF, 2)]
    if t == "asset": s += [prt(t, v, "ctor"), ev("float", t=T(t), v=v)]
    if t in ("pubkey", "sig"): s.append(prt(t, v, "ctor"))
    if text is not None: s.append(par(t, text, g.val(T(t)), pform(r, text)))
    return s

def mutate(r, s, alphabet):
    """a small change of the text"""
    s = list(s); k = r.randrange(6)
    i = r.randrange(len(s) + 1)
    if k == 0: s.insert(i, r.choice(alphabet))
    elif k == 1 and s: del s[min(i, len(s) - 1)]
    elif k == 2 and s: s[min(i, len(s) - 1)] = r.choice(alphabet)
    elif k == 3 and len(s) > 1:
        i = r.randrange(len(s) - 1); s[i], s[i + 1] = s[i + 1], s[i]
    elif k == 4: s = s[:i]
    else: s = s + [r.choice(alphabet) for _ in range(r.randrange(1, 4))]
    return "".join(s)

# --- names
NA = ".12345abcdefghijklmnopqrstuvwxyz"
def nametext(r):
    n = r.choice([0, 1, 2, 5, 11, 12, 12, 13])
    s = "".join(r.choice(NA) for _ in range(min(n, 12)))
    if n == 13: s += r.choice(NA[:16])
    return s

def c18(r, n):
    out = []
    vals = [0, 1, 15, 16, 31, 32, (1 << 64) - 1, 1 << 63, (1 << 63) - 1] + [1 << k for k in range(64)] + [((1 << 64) - 1) ^ (1 << k) for k in range(0, 64, 3)]
    vals += [31 << (4 + 5 * k) for k in range(12)] + [15]
    g = G(r)
    for x in vals: out.append(both(r, "name", num(x)))
    # every character alone at every position
    for pos in range(13):
        s = []
        for c in NA[:16] if pos == 12 else NA:
            for fill in (".", r.choice("az5")):
                s.append(par("name", (fill * pos + c), g.val(T("name")), r.choice(QF)))
        out.append(s)
    out.append([par("name", chr(c) * 3, g.val(T("name")), r.choice(["text", "new"])) for c in range(128)])
    while len(out) < n:
        c = r.random()
        if c < .35: out.append(both(r, "name", num(bits(r, 64))))
        elif c < .7:
            t = nametext(r); out.append([par("name", t, g.val(T("name")), r.choice(QF + ["must"])) for _ in range(2)])
        else:
            t = mutate(r, nametext(r), NA + "ABCZ0678 9_-/`{" + "@\x00\x7f,")
            if r.random() < .3: t += "".join(r.choice(NA + "XY09") for _ in range(r.randrange(1, 8)))
            out.append([par("name", t, g.val(T("name")), r.choice(["text", "new"]))])
    return out

# --- symbols and assets
UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
def symname(r): return "".join(r.choice(UP) for _ in range(r.choice([1, 2, 3, 3, 4, 6, 7])))
def symval(p, nm): return int.from_bytes(bytes([p]) + nm.encode(), "little")
def fmt(x, p, nm):
    s = str(abs(x)).rjust(p + 1, "0")
    return ("-" if x < 0 else "") + (s if p == 0 else s[:-p] + "." + s[-p:]) + " " + nm

def c19(r, n):
    out = []
    g = G(r)
    amounts = [0, 1, -1, 9, 10, -10, 99, 100, (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, 10 ** 18, -10 ** 18, 10 ** 18 - 1, 1 << 62]
    for p in range(19):
        nm = symname(r); s = []
        for x in amounts:
            s += both(r, "asset", V("q", (), [num(x), num(symval(p, nm))]), fmt(x, p, nm))
        out.append(s)
        s = [ev("mksym", n=p, s=S_(nm)), ev("symparts", v=num(symval(p, nm)))] + both(r, "symbol", num(symval(p, nm)), "%d,%s" % (p, nm))
        out.append(s)
    # symbols straight from the wire, any bits at all
    for k in range(40):
        x = bits(r, 64)
        if k < 8: x = symval([19, 20, 64, 127, 128, 200, 254, 255][k], "EOS")
        out.append([prt("symbol", num(x), r.choice(PF[:3])), prt("symcode", num(x), "text"), ev("symparts", v=num(x)),
                    prt("asset", V("q", (), [num(r.choice(amounts)), num(x)]), r.choice(PF[:3]))])
    # limits
    lim = []
    for p in (0, 1, 4, 18):
        for x in ((1 << 63) - 1, 1 << 63, -(1 << 63), -(1 << 63) - 1, 10 ** 19, -10 ** 19, 1 << 64, (1 << 64) + 5, 10 ** 25):
            lim.append(par("asset", fmt(x, p, "EOS"), g.val(T("asset")), r.choice(QF)))
    out.append(lim)
    bad = ["", " ", "1", "1 ", " EOS", "EOS", "1.0", "1.0 EOS X", "1.0  EOS", "1..0 EOS", "1.0.0 EOS", "--1 EOS", "-", "- EOS", "1- EOS", "0.-1 EOS", "1e5 EOS",
           "0x1 EOS", "1_000 EOS", "1,0 EOS", "1.0 eos", "1.0 E0S", "1.0 EOSEOSEO", "1.0 EOSEOSE", "1.0 E S", "1.0\tEOS", "1.0 EOS ", " 1.0 EOS", "1.0 EO.S",
           "0.1234567890123456789 EOS", "0.123456789012345678 EOS", "1.0000000000000000000 EOS", ". EOS", "-. EOS", "٣ EOS", "1.0 ÉOS", "1.0 @OS", "1.0 [OS",
           "1.0 EOS\x00", "0.0000000000000000000 EOS", "9223372036854775808 EOS", "-9223372036854775809 EOS", "922337203685477.5808 EOS", "Infinity EOS", "NaN EOS", "1/2 EOS",
           "00000000000000000000000001 EOS", "1. EOS", ".5 EOS", "+1.0 EOS", "-0.0 EOS", "01.5 EOS", "1.+5 EOS", "1.-5 EOS"]
    out.append([par("asset", b, g.val(T("asset")), aform(r)) for b in bad])
    bads = ["", ",", "4", "4,", ",EOS", "EOS", "4,eos", "4,EOSEOSEO", "4,EOSEOSE", "19,EOS", "18,EOS", "20,EOS", "255,EOS", "256,EOS", "260,EOS", "-1,EOS", "127,EOS", "128,EOS", "4,EOS,", "4,,EOS", "4 EOS",
            "4,E S", "4,EOS ", " 4,EOS", "4.0,EOS", "0x4,EOS", "1_0,EOS", "4,E0S", "4,@A", "4,[A", "4,é", "-0,EOS", "+4,EOS", "04,EOS", "-238,EOS", "99999999999999999999,EOS"]
    out.append([par("symbol", b, g.val(T("symbol")), r.choice(["text", "new"])) for b in bads])
    badc = ["", "eos", "EOSEOSEO", "EOSEOSE", "E S", "E,S", ",EOS", "4,EOS", "EOS,", "E0S", "@A", "[A", "É", "A", "ZZZZZZZ"]
    out.append([par("symcode", b, g.val(T("symcode"))) for b in badc])
    out.append([ev("mksym", n=p, s=S_(x)) for p in (0, 18, 19, 100, 255) for x in ("A", "ABCDEFG", "ABCDEFGH", "a", "A B", "", "A1", "\xff")])
    while len(out) < n:
        p, nm = r.randrange(19), symname(r)
        x = bits(r, 63) * r.choice([1, -1])
        v = V("q", (), [num(x), num(symval(p, nm))])
        c = r.random()
        if c < .4: out.append(both(r, "asset", v, fmt(x, p, nm)))
        elif c < .5:
            out.append(both(r, "symbol", num(symval(p, nm)), "%d,%s" % (p, nm)) + [ev("symparts", v=num(symval(p, nm)))])
        elif c < .6: out.append(both(r, "symcode", num(symval(p, nm) >> 8), nm)[1:])
        elif c < .9: out.append([par("asset", mutate(r, fmt(x, p, nm), "0123456789.-+ ,eEAZaz@[/:\x00"), g.val(T("asset")), aform(r)) for _ in range(3)])
        else: out.append([par("symbol", mutate(r, "%d,%s" % (p, nm), "0123456789.-+ ,eEAZaz@["), g.val(T("symbol")), r.choice(["text", "new"])) for _ in range(3)])
    return out

# --- wide integers
def c20(r, n):
    out = []
    g = G(r)
    for t, lo, hi in (("uint128", 0, (1 << 128) - 1), ("int128", -(1 << 127), (1 << 127) - 1)):
        edge = sorted({lo, lo + 1, hi, hi - 1, 0, 1, 10, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 63), (1 << 127) - 1, 1 << 127} | ({-1, -10, -(1 << 64), -(1 << 63), -(1 << 64) + 1} if lo else set()))
        for x in edge:
            if x + hi > hi: out.append([ev("wide", t=T(t), v=num(x + hi), form="over")] + ([ev("wide", t=T(t), v=num(lo - x), form="over")] if lo else []))
            if lo <= x <= hi: out.append(both(r, t, num(x), str(x)) + [ev("wide", t=T(t), v=num(x))])
        out.append([par(t, str(x), g.val(T(t)), r.choice(QF)) for x in (lo - 1, hi + 1, lo - 5, hi + 100, 1 << 128, (1 << 128) + 1, 1 << 129, 1 << 200, -(1 << 128), -(1 << 127) - 1, 10 ** 39, -10 ** 39, 10 ** 60)])
        bad = ["", " ", "-", "+", "--1", "1 ", " 1", "1.0", "1e3", "0x10", "1_000", "abc", "1a", "a1", "１", "1,000", "-+1", "\x001", "0b1", "0o7", "--", "1-", "00", "+1", "-0", "007"]
        out.append([par(t, b, g.val(T(t)), r.choice(["text", "new"])) for b in bad])
    for t, w in (("uint64", 64), ("blocknum", 32)):
        edge = [0, 1, 9, 10, (1 << 31), (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 53), (1 << 53) + 1, (1 << 63), (1 << 64) - 1]
        for x in edge:
            if x >> w: continue
            s = [ev("jprint", t=T(t), v=num(x), form=f) for f in ("val", "ptr", "method")]
            if t == "blocknum": s += [prt(t, num(y), "str") for y in (x, x // 7, 10 ** min(9, len(str(x))), 10 ** min(9, len(str(x))) - 1)]
            for doc in (str(x), '"%d"' % x): s += [ev("jparse", t=T(t), s=S_(doc), v=g.val(T(t)), form=f) for f in ("json", "method")]
            out.append(s)
        docs = []
        for x in (1 << 32, (1 << 32) + 7, 1 << 63, 1 << 64, (1 << 64) + 1, 10 ** 20, 10 ** 30): docs += [str(x), '"%d"' % x]
        docs += ["-1", '"-1"', "1.0", '"1.0"', "1e3", '"1e3"', '""', '"', '" 1"', '"1 "', '"0x1"', '"1_0"', "true", "null", "[]", "{}", "[1]", '"a"', '""1"', '1"', '"1', "", " ",
                 '"+1"', '"01"', '"-0"', "-0", '"\\u0031"']
        docs = [d for d in docs if d != '"\\u0031"']
        for f in ("json", "method"): out.append([ev("jparse", t=T(t), s=S_(d), v=g.val(T(t)), form=f) for d in docs])
    while len(out) < n:
        c = r.random()
        t = r.choice(["uint128", "int128"])
        v = g.val(T(t)); x = unnum(v)
        if c < .4: out.append(both(r, t, v, str(x)) + [ev("wide", t=T(t), v=v)])
        elif c < .6: out.append([par(t, mutate(r, str(x), "0123456789-+ .e_xa"), g.val(T(t)), r.choice(["text", "new"])) for _ in range(3)])
        elif c < .8:
            t = r.choice(["uint64", "blocknum"]); v = g.val(T(t)); x = unnum(v)
            doc = r.choice([str(x), '"%d"' % x])
            if t == "blocknum": out.append([prt(t, v, "str")])
            out.append([ev("jprint", t=T(t), v=v, form=r.choice(["val", "ptr", "method"])), ev("jparse", t=T(t), s=S_(doc), v=g.val(T(t)), form=r.choice(["json", "method"]))])
        else:
            t = r.choice(["uint64", "blocknum"]); x = bits(r, 70)
            doc = r.choice([str(x), '"%d"' % x])
            doc2 = mutate(r, doc, '0123456789-+. eE_"')
            s = [ev("jparse", t=T(t), s=S_(doc), v=g.val(T(t)), form=r.choice(["json", "method"]))]
            s.append(ev("jparse", t=T(t), s=S_(doc2), v=g.val(T(t)), form="method"))
            if jsonish(doc2): s.append(ev("jparse", t=T(t), s=S_(doc2), v=g.val(T(t)), form="json"))
            out.append(s)
    return out

def jsonish(d):
    """plain documents only: no surrounding space, no escapes, no number in non-canonical form"""
    import json
    if d != d.strip(): return False
    try: json.loads(d)
    except Exception: return True
    return d[0] in '"0123456789' and "e" not in d.lower() or d.startswith('"')

# --- times
E70 = datetime.datetime(1970, 1, 1)
MAXUS = 253402300800 * 10 ** 6 - 1; MINUS = -62135596800 * 10 ** 6
def iso(us, ms):
    d = E70 + datetime.timedelta(microseconds=us)
    s = "%04d-%02d-%02dT%02d:%02d:%02d" % (d.year, d.month, d.day, d.hour, d.minute, d.second)
    return s + ".%03d" % (d.microsecond // 1000) if ms else s
def tval(r, t):
    if t == "tp":
        c = r.random()
        if c < .15: return r.choice([0, 1, -1, 999, 1000, -999, -1000, MAXUS, MINUS, 951782400 * 10 ** 6, 951868799999999])
        if c < .45: return r.randrange(0, 4102444800 * 10 ** 6)
        return r.randrange(MINUS, MAXUS + 1)
    if r.random() < .1: return r.choice([0, 1, (1 << 32) - 1, (1 << 31), (1 << 31) - 1])
    return bits(r, 32) if r.random() < .3 else r.getrandbits(32)
def tus(t, x): return x if t == "tp" else x * 10 ** 6 if t == "tps" else 946684800 * 10 ** 6 + x * 500000

def c21(r, n):
    out = []
    g = G(r)
    TK = ["tp", "tps", "bts"]
    def sess(): return [ev("tz", form=r.choice(ZONES))]
    for t in TK:
        for x in [0, 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1] + ([-1, -1000, -1001, 999999, MAXUS, MINUS, MINUS + 1, -(1 << 63), (1 << 63) - 1, MAXUS + 1, MINUS - 1, 1 << 62] if t == "tp" else []):
            v = num(x)
            s = sess() + [prt(t, v, f) for f in PF] + [ev("time", t=T(t), v=v, form=r.choice(["", "plus"]))]
            if MINUS <= tus(t, x) <= MAXUS:
                for z in ("", "Z"): s.append(par(t, iso(tus(t, x), t != "tps") + z, num(tval(r, t)), r.choice(QF)))
            else: s.pop()
            out.append(s)
    # calendar edges
    for t in TK:
        s = sess()
        f = ".000" if t != "tps" else ""
        for y in (1, 2, 4, 99, 100, 400, 1582, 1600, 1700, 1900, 1904, 1969, 1970, 1999, 2000, 2004, 2001, 2021, 2024, 2068, 2069, 2100, 2106, 2107, 2400, 9999):
            for m, d in ((2, 28), (2, 29), (2, 30), (1, 31), (4, 30), (4, 31), (12, 31), (12, 32), (0, 1), (13, 1), (6, 0), (11, 31), (9, 31), (6, 31), (3, 1)):
                s.append(par(t, "%04d-%02d-%02dT%02d:%02d:%02d" % (y, m, d, r.randrange(24), r.randrange(60), r.randrange(60)) + f + r.choice(["", "Z"]), num(tval(r, t)), r.choice(QF)))
        out.append(s)
        s = sess()
        for h, mi, se in ((24, 0, 0), (23, 59, 59), (23, 60, 0), (0, 0, 60), (12, 30, 61), (99, 0, 0), (0, 99, 0), (0, 0, 99), (23, 59, 60), (25, 61, 61)):
            s.append(par(t, "2021-06-15T%02d:%02d:%02d" % (h, mi, se) + f, num(tval(r, t)), r.choice(QF)))
        # just outside and inside the range
        for us in (0, -10 ** 6, ((1 << 32) - 1) * 10 ** 6, (1 << 32) * 10 ** 6, 946684800 * 10 ** 6, 946684800 * 10 ** 6 - 500000, 946684800 * 10 ** 6 - 10 ** 6,
                   tus("bts", (1 << 32) - 1), tus("bts", 1 << 32), tus("bts", (1 << 32) + 1), tus("bts", 1 << 33), (1 << 33) * 10 ** 6, MAXUS // 10 ** 6 * 10 ** 6, MINUS,
                   tus("bts", (1 << 32) - 1) + 249000, tus("bts", (1 << 32) - 1) + 251000, 946684800 * 10 ** 6 - 251000, 946684800 * 10 ** 6 - 249000):
            s.append(par(t, iso(us, t != "tps"), num(tval(r, t)), r.choice(QF)))
        out.append(s)
        bad = ["", "Z", "x", "2021-01-01", "2021-01-01T00:00:00+00:00x", "2021-01-01T00:00:00.000UTC", "2021-01-01t00:00:00.000", "yesterday", "2021-Jan-01T00:00:00.000", "20a1-01-01T00:00:00.000",
               "2021-01-01T00:00:00.abc", "2021/01/01T00:00:00.000", "2021-01-01T00:00:00.000z", "\x00", "2021-01-01T00:00:00.000Z\n", "２021-01-01T00:00:00.000"]
        out.append([par(t, b, num(tval(r, t)), r.choice(["text", "new"])) for b in bad])
    while len(out) < n:
        t = r.choice(TK); x = tval(r, t); v = num(x)
        c = r.random(); txt = iso(tus(t, x), t != "tps")
        if c < .6:
            s = sess() + [prt(t, v, f) for f in r.sample(PF, 2)] + [par(t, txt + r.choice(["", "Z"]), num(tval(r, t)), r.choice(QF)), ev("time", t=T(t), v=v, form=r.choice(["", "plus"]))]
            out.append(s)
        elif c < .8:
            # any well-shaped text: digits replaced
            s = sess()
            for _ in range(4):
                q = list(txt)
                for _ in range(r.randrange(1, 3)):
                    i = r.choice([i for i, ch in enumerate(q) if ch.isdigit()]); q[i] = r.choice("0123456789")
                s.append(par(t, "".join(q) + r.choice(["", "Z"]), num(tval(r, t)), r.choice(QF)))
            out.append(s)
        else: out.append(sess() + [par(t, mutate(r, txt, "0123456789-:T.Z abx/"), num(tval(r, t)), r.choice(["text", "new"])) for _ in range(4)])
    return out

# --- hex and base64
HEXK = ["cbytes", "c160", "c256", "c512", "float128"]
def c22(r, n):
    out = []
    g = G(r, big=True)
    for t in HEXK:
        size = RAW.get(t)
        s = []
        for m in ([size - 1, size + 1, 0, 1, 2 * size, size] if size else [0, 1, 2, 3, 255]):
            b = bytes(r.randrange(256) for _ in range(m))
            s += [par(t, b.hex(), g.val(T(t)), r.choice(QF)), par(t, b.hex()[:-1], g.val(T(t)), r.choice(QF)), par(t, b.hex() + "0", g.val(T(t)), "text")]
        out.append(s)
        b = bytes(range(256)) * 1
        b = (b if not size else bytes(r.randrange(256) for _ in range(size)))
        s = []
        for bad in "gG/:@`\x00 xéZ":
            h = list(b.hex()); h[r.randrange(len(h))] = bad
            s.append(par(t, "".join(h)[:len(b) * 2], g.val(T(t)), "text"))
        s.append(par(t, "0x" + b.hex()[2:], g.val(T(t)), "text"))
        out.append(s)
    for c in range(0, 256, 1):      # every character code in hex and base64
        t = r.choice(HEXK); v = zero(T(t))
        h = ("0" * (2 * RAW.get(t, 3) - 1)).encode()
        i = r.randrange(len(h) + 1)
        out.append([par(t, h[:i] + bytes([c]) + h[i:], g.val(T(t)), "text"),
                    par("blob", b"QUJD"[:r.randrange(4)] + bytes([c]) + b"QUJD"[:r.randrange(4)], g.val(T("blob")), "text")])
    for m in list(range(0, 20)) + [62, 63, 64, 65, 100]:
        b = bytes(r.randrange(256) for _ in range(m)); e = base64.b64encode(b).decode()
        s = both(r, "blob", V("s", b), e)
        for q in {e.rstrip("="), e[:-1] if e.endswith("=") else e, e + "=", e + "==", e + "====", e.rstrip("=") + "=", "=" + e, e[:-1], e[:2] + "=" + e[2:], e + "\n", e + " ", e + "A", e.replace("+", "-").replace("/", "_")}:
            s.append(par("blob", q, g.val(T("blob")), r.choice(["text", "json"]) if ascii_ok(q) else "text"))
        out.append(s)
    for m in (511, 512, 513, 1023, 1024, 1025, 3071, 3072, 3073, 4095, 4096, 4097, 9000):      # long texts
        b = [r.randrange(256) for _ in range(m)]
        h, e = bytes(b).hex(), base64.b64encode(bytes(b)).decode()
        i, j = r.randrange(len(h)), r.randrange(len(e) - 2)
        out.append(both(r, "cbytes", V("s", b), h) + [par("cbytes", h[:-1], g.val(T("cbytes")), "text"), par("cbytes", h[:i] + "g" + h[i + 1:], g.val(T("cbytes")), r.choice(QF))])
        out.append(both(r, "blob", V("s", b), e) + [par("blob", e[:-1], g.val(T("blob")), "text"), par("blob", e[:j] + "!" + e[j + 1:], g.val(T("blob")), r.choice(QF))])
    while len(out) < n:
        if r.random() < .6:
            t = r.choice(HEXK); v = g.val(T(t)); h = bytes(v["b"]).hex()
            out.append(both(r, t, v, h) + [par(t, mutate(r, h, "0123456789abcdefABCDEFgx /"), g.val(T(t)), "text")])
        else:
            v = g.val(T("blob")); h = base64.b64encode(bytes(v["b"])).decode()
            out.append(both(r, "blob", v, h) + [par("blob", mutate(r, h, "ABCDwxyz0189+/=-_ !"), g.val(T("blob")), "text")])
    return out

# --- base58
def b58bytes(r):
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 20, 21, 25, 31, 32, 33, 37, 40, 64, 65, 69])
    c = r.random()
    if c < .2: return [0] * n
    if c < .3: return [255] * n
    if c < .5: return [0] * r.randrange(1, 6) + [r.randrange(256) for _ in range(n)]
    if c < .6: return [r.randrange(256) for _ in range(n)] + [0] * r.randrange(1, 9)
    return [r.randrange(256) for _ in range(n)]

def c23(r, n):
    out = []
    for m in range(0, 90): out.append([ev("b58e", d=[r.randrange(256) for _ in range(m)]), ev("b58e", d=[0] * m), ev("b58d", s=S_("1" * m)), ev("b58d", s=S_("z" * m))])
    for m in LONG:              # long ones, also with many leading zeros
        for b in ([r.randrange(256) for _ in range(m)], [255] * m, [0] * r.randrange(1, 300) + [r.randrange(256) for _ in range(m)], [1] + [0] * (m - 1)):
            t = b58(b)
            i = r.randrange(len(t))
            out.append([ev("b58e", d=b), ev("b58d", s=S_(t)), ev("b58d", s=S_(t[:i] + r.choice("0OIl_ ") + t[i:]))])
    for m in (6000, 20000): out.append([ev("b58e", d=[r.randrange(256) for _ in range(m)]), ev("b58d", s=S_("".join(r.choice(ALPH) for _ in range(m))))])
    for m in (200, 500, 1000, 2000, 20000): out.append([ev("b58e", d=[0] * m), ev("b58d", s=S_("1" * m)), ev("b58d", s=S_("z" * m)), ev("b58d", s=S_("1" * m + "z"))])
    for k in range(1, 46):      # powers of 58 and their neighbours
        s = []
        for d in (-1, 0, 1):
            x = 58 ** k + d
            s += [ev("b58e", d=list(x.to_bytes((x.bit_length() + 7) // 8, "big"))), ev("b58d", s=S_(b58(x.to_bytes((x.bit_length() + 7) // 8, "big"))))]
        out.append(s)
    for c in range(256):        # every byte at some position
        base = b58([r.randrange(256) for _ in range(r.choice([1, 3, 8, 14, 15, 22, 32]))]).encode()
        i = r.randrange(len(base) + 1)
        out.append([ev("b58d", s=S_(base[:i] + bytes([c]) + base[i:]))])
    for u in ["é", "1é", "Ā1", "日本", "ı", "\u0131z", "1\u2028", "😀", "zzzzzzzzzzé", "\u01311111", "ｚ"]: out.append([ev("b58d", s=S_(u))])
    while len(out) < n:
        b = b58bytes(r); t = b58(b)
        out.append([ev("b58e", d=b), ev("b58d", s=S_(t)), ev("b58d", s=S_("1" * r.randrange(3) + t)), ev("b58d", s=S_(mutate(r, t, ALPH + "0OIl +/_é\u0131")))])
    return out

LONG = [121, 127, 128, 129, 160, 200, 255, 256, 257, 300, 400, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 1500, 2000, 2048, 3000]
SUFF = ["", "K1", "R1", "WA", "k1", "K", "XYZ", "\x00", "K1\x00", "é"]
def c24(r, n):
    out = []
    for m in range(0, 70):
        b = [r.randrange(256) for _ in range(m)] if r.random() < .7 else [0] * m
        sf = r.choice(SUFF)
        out.append([ev("cke", d=b, form="sha", a=[]), ev("cke", d=b, form="rmd", a=S_(sf)), ev("ckd", s=S_(cks(b)), form="sha", a=[]), ev("ckd", s=S_(ckr(b, sf.encode())), form="rmd", a=S_(sf))])
    for m in LONG:
        b = [r.randrange(256) for _ in range(m)]; sf = r.choice(SUFF); form = r.choice(["sha", "rmd"])
        a = [] if form == "sha" else S_(sf)
        full = b + (list(hashlib.sha256(hashlib.sha256(bytes(b)).digest()).digest()[:4]) if form == "sha" else list(rmd160(bytes(b) + sf.encode())[:4]))
        s = [ev("cke", d=b, form=form, a=a), ev("ckd", s=S_(b58(full)), w=full, form=form, a=a)]
        for _ in range(3):
            g = list(full); i = r.choice([r.randrange(len(g)), len(g) - 1 - r.randrange(4), r.randrange(min(len(g), 8))]); g[i] ^= 1 << r.randrange(8)
            s.append(ev("ckd", s=S_(b58(g)), w=g, form=form, a=a))
        out.append(s)
    # short strings and wrong characters
    for q in ["", "1", "11", "111", "1111", "11111", "z", "zz", "zzz", "zzzz", "zzzzz", "zzzzzz", "0", "é", "IIII", "l", b58([1, 2, 3]), b58([0, 0, 0]), b58([0, 0, 0, 0]), b58([1, 2, 3, 4]), b58([0])]:
        out.append([ev("ckd", s=S_(q), form="sha", a=[]), ev("ckd", s=S_(q), form="rmd", a=[]), ev("ckd", s=S_(q), form="rmd", a=S_("K1"))])
    while len(out) < n:
        b = b58bytes(r); sf = r.choice(SUFF); form = r.choice(["sha", "rmd"])
        txt = cks(b) if form == "sha" else ckr(b, sf.encode())
        a = [] if form == "sha" else S_(sf)
        s = [ev("ckd", s=S_(txt), form=form, a=a)]
        full = list(b) + (list(hashlib.sha256(hashlib.sha256(bytes(b)).digest()).digest()[:4]) if form == "sha" else list(rmd160(bytes(b) + sf.encode())[:4]))
        # every single byte and character of it corrupted somewhere
        for _ in range(3):
            g = list(full); i = r.randrange(len(g)) if r.random() < .6 else len(g) - 1 - r.randrange(4); g[i] ^= 1 << r.randrange(8)
            s.append(ev("ckd", s=S_(b58(g)), form=form, a=a))
        s.append(ev("ckd", s=S_(mutate(r, txt, ALPH + "0")), form=form, a=a))
        s.append(ev("ckd", s=S_(txt), form="rmd" if form == "sha" else r.choice(["sha", "rmd"]), a=S_(r.choice(SUFF))))
        out.append(s)
    return out

# --- keys
KALPH = ALPH + "0OIl_-"
def keyv(r, kind, kt=None):
    while True:
        k = key(r, kind)
        if kt is None or k[0] == kt: return k
def c25(r, n):
    out = []
    g = G(r)
    for kind in ("pubkey", "sig"):
        for kt in (0, 1, 2):
            for _ in range(4):
                k = keyv(r, kind, kt)
                s = [prt(kind, V("key", k), f) for f in PF] + [par(kind, keytext(kind, k), V("key", key(r, kind)), f) for f in QF]
                out.append(s)
                # wrong prefix / type / separator / length / suffix
                t = keytext(kind, k); s = []
                tags = ["K1", "R1", "WA", "XX", "k1", "P1", "XY"]
                for q in [t.replace("PUB_", "SIG_").replace("SIG_", "PUB_") if False else ("SIG_" if kind == "pubkey" else "PUB_") + t[4:]] + ["PVT_" + t[4:], t[:4].lower() + t[4:], t[:3] + "-" + t[4:], " " + t, t + " ", t[1:]] \
                        + [t[:4] + x + t[6:] for x in tags] + [t[:6] + x + t[7:] for x in "-/.1"] + [t[:7] + "_" + t[7:], t[:6] + t[7:], t[:7], t[:6], t[:4], t[:5], t[:8], t[:20], ""]:
                    s.append(par(kind, q, V("key", key(r, kind)), r.choice(QF)))
                out.append(s)
                s = []
                for x in range(3):      # properly checksummed text of wrong data
                    tg = [b"K1", b"R1", b"WA"][x]
                    for d in (k[1:-1], k[1:] + [7], [], k[1:34], k[1:66], [0] * 33, [0] * 34, [0] * 32, [0] * 65, [0] * 66, [0] * 64, k[1:] + [0], [5] * 35 + [200], [1] * 34 + [128, 0], [1] * 65 + [0, 0, 0], [1] * 65 + [0, 0], [1] * 65 + [1, 0], [1] * 34 + [0], [1] * 34 + [0, 0], [1] * 65 + [128, 0, 0]):
                        s.append(par(kind, t[:4] + tg.decode() + "_" + ckr(d, tg), V("key", key(r, kind)), r.choice(QF)))
                out.append(s)
    for m in (127, 128, 129, 250, 500):       # long tails
        for kind in ("pubkey", "sig"):
            d = lambda x: [r.randrange(256) for _ in range(x)]
            k = [2] + (d(34) + varlen(m) + d(m) if kind == "pubkey" else d(65) + varlen(9) + d(9) + varlen(m) + d(m))
            t = keytext(kind, k); i = 7 + r.randrange(len(t) - 7)
            out.append(both(r, kind, V("key", k), t) + [par(kind, t[:i] + r.choice(ALPH) + t[i + 1:], V("key", key(r, kind)), r.choice(QF))])
    pres = ["EOS", "FIO", "", "X", "GLS", "EOS_", "é", "PUB"]
    for i in range(40):
        k = [0, r.choice([2, 3])] + [r.choice([0, 255, r.randrange(256)]) for _ in range(32)]
        if i < 4: k[2:] = [[0] * 32, [255] * 32, [0] * 31 + [1], [1] + [0] * 31][i]
        pre = r.choice(pres); body = ckr(k[1:])
        s = [ev("legacy", t=T("pubkey"), v=V("key", k), s=S_(pre)), par("pubkey", "EOS" + body, V("key", key(r, "pubkey")), r.choice(QF)),
             par("pubkey", pre + body, V("key", key(r, "pubkey")), pform(r, pre)), par("pubkey", body, V("key", key(r, "pubkey")), r.choice(QF))]
        s += [par("pubkey", "EOS" + b58(list(k[1:]) + list(rmd160(bytes(k[1:]) + x)[:4])), g.val(T("pubkey")), "text") for x in (b"K1", b"R1")]
        s += [par("pubkey", "EOS" + b58(list(k[1:]) + list(hashlib.sha256(hashlib.sha256(bytes(k[1:])).digest()).digest()[:4])), g.val(T("pubkey")), "new")]
        for _ in range(4): s.append(par("pubkey", mutate(r, "EOS" + body, KALPH), g.val(T("pubkey")), r.choice(QF)))
        for q in ("EOS", "EOS" + body[:10], body[:49], "EOS" + body[1:], "EOS" + body[:-1], body[1:], "EOS" + ckr(k[1:-1]), "EOS" + ckr([0] * 32), "EOS" + ckr([4] + [7] * 64), "E" * 60, "é" * 30, "sig", "1" * 50, "1" * 60):
            s.append(par("pubkey", q, g.val(T("pubkey")), r.choice(["text", "new"])))
        out.append(s)
    while len(out) < n:
        kind = r.choice(["pubkey", "sig"]); k = key(r, kind); t = keytext(kind, k)
        s = both(r, kind, V("key", k), t)
        for _ in range(3):
            i = 7 + r.randrange(len(t) - 7); q = t[:i] + r.choice(ALPH) + t[i + 1:]
            s.append(par(kind, q, V("key", key(r, kind)), r.choice(QF)))
        s.append(par(kind, mutate(r, t, KALPH), V("key", key(r, kind)), r.choice(QF)))
        out.append(s)
    return out

# --- hashes
EDGE = [0, 1, 2, 7, 8, 54, 55, 56, 57, 62, 63, 64, 65, 66, 110, 111, 112, 113, 118, 119, 120, 121, 126, 127, 128, 129, 130, 183, 184, 185, 191, 192, 193, 239, 240, 241, 255, 256, 257]
def data(r, n): return [r.randrange(256) for _ in range(n)] if r.random() < .8 else [r.choice([0, 255, 128])] * n
def c26(r, n, bulk=True):
    out = []
    # every length, one write; every two-way split around the block size
    for m in range(0, 140): out.append([ev("hnew", h=1, form=r.choice(["", "crypto"])), ev("hwrite", h=1, d=data(r, m)), ev("hsum", h=1, a=[]), ev("hsum", h=1, a=data(r, r.randrange(3)))])
    for a in (0, 1, 8, 55, 56, 63, 64, 65, 127, 128):
        for b in (0, 1, 7, 8, 9, 55, 56, 63, 64, 65, 72, 73, 120, 128, 136):
            out.append([ev("hwrite", h=1, d=data(r, a)), ev("hwrite", h=1, d=data(r, b)), ev("hsum", h=1, a=[])])
    for m in (300, 511, 512, 513, 1000, 1024, 2048, 4095, 4096, 4097, 5000):    # long writes, also with bytes pending
        k = r.choice([1, 9, 55, 63, r.randrange(64)])
        out.append([ev("hwrite", h=1, d=data(r, m)), ev("hsum", h=1, a=[])])
        out.append([ev("hwrite", h=1, d=data(r, k)), ev("hwrite", h=1, d=data(r, m)), ev("hsum", h=1, a=[]), ev("hwrite", h=1, d=data(r, r.randrange(70))), ev("hsum", h=1, a=[7])])
    if bulk:
        out.append([ev("hbulk", h=1), ev("hsum", h=1, a=[]), ev("hwrite", h=1, d=data(r, 70)), ev("hsum", h=1, a=[1, 2])])
    while len(out) < n:
        s = []; tot = {1: 0, 2: 0, 3: 0}
        for _ in range(r.randrange(3, 12)):
            h = r.choice([1, 1, 1, 2, 3]); c = r.random()
            if c < .55:
                m = r.choice(EDGE[:34]) if r.random() < .6 else r.randrange(0, 20)
                if tot[h] + m > 300: m = r.randrange(3)
                # aim at block boundaries
                if r.random() < .3: m = (-tot[h]) % 64 + r.choice([0, 0, 1, 64])
                tot[h] += m; s.append(ev("hwrite", h=h, d=data(r, m)))
            elif c < .85: s.append(ev("hsum", h=h, a=data(r, r.choice([0, 0, 1, 5, 20]))))
            elif c < .95: tot[h] = 0; s.append(ev("hreset", h=h))
            else: tot[h] = 0; s.append(ev("hnew", h=h, form=r.choice(["", "crypto"])))
        s.append(ev("hsum", h=1, a=[])); s.append(ev("hsum", h=2, a=[]))
        out.append(s)
    return out

def c27(r, n):
    out = []
    g = G(r)
    for k in (1, 2, 3, 4):
        for f in ("160", "256", "512"): out.append([ev("dbulk", form=f, n=k, d=data(r, m)) for m in (0, 1, r.randrange(2, 200))])
    for m in (500, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4000):
        out.append([ev("digest", form=f, d=data(r, m)) for f in ("160", "256", "512")])
    for m in (127, 128, 129, 255, 256, 300, 1000, 4096, 5000): out.append([ev("adigest", t=T("action"), v=V("q", (), [num(5), num(6), V("q", (), []), V("s", data(r, m))]))])
    for m in (17, 127, 128, 200, 256, 300): out.append([ev("adigest", t=T("action"), v=V("q", (), [num(5), num(6), V("q", (), [V("q", (), [num(r.randrange(1 << 64)), num(i)]) for i in range(m)]), V("s", data(r, 3))]))])
    for m in range(0, 260):
        out.append([ev("digest", form=f, d=data(r, m)) for f in (("160", "256", "512") if m in EDGE or m < 130 else ("512",))])
    while len(out) < n:
        c = r.random()
        if c < .3: out.append([ev("digest", form=r.choice(["160", "256", "512"]), d=data(r, r.randrange(0, 600)))])
        else:
            v = g.val(T("action")); s = [ev("adigest", t=T("action"), v=v)]
            w = {"k": "q", "b": [], "e": [dict(x) for x in v["e"]]}
            i = r.randrange(4); w["e"][i] = g.val(T("action"))["e"][i]
            s += [ev("adigest", t=T("action"), v=w), ev("adigest", t=T("action"), v=v)]
            out.append(s)
    return out

# the text half of C11: repeated printing and parsing, looking at the text afterwards
TEXTK = ["name", "symbol", "symcode", "asset", "uint128", "int128", "tp", "tps", "bts", "cbytes", "c160", "c256", "c512", "float128", "blob", "pubkey", "sig"]
def texts(r, n):
    src = []
    for f in (c18, c19, c20, c21, c22, c25): src += f(r, 60)[-40:]
    r.shuffle(src)
    out = []
    for s in src[:n]:
        t = []
        for e in s[:8]:
            if e["op"] == "parse": e = dict(e, form="text")
            t += [e] * (2 if e["op"] in ("print", "jprint", "jparse", "legacy", "wide") else 1)
        out.append(t)
    for s in c24(r, 80)[-20:] + c23(r, 500)[-20:] + c27(r, 320)[-40:]: out.append([e for e in s for _ in range(2)])
    return out
