"""Scripts for concurrent use (C30)."""
import copy, random
from nodes import *
from gen_codec import ev, enc, dec, wire, lit, PATHS, eby, dby, CHS
import gen_abi as ga, gen_text as gt, gen_json as gj

def textpool(r):
    pool = []
    for g, n in ((gt.c18, 80), (gt.c19, 60), (gt.c20, 60), (gt.c21, 60), (gt.c22, 60), (gt.c23, 60), (gt.c24, 60), (gt.c25, 80), (gt.c27, 60)):
        p = g(r, n); pool.append([x for x in r.sample(p, min(n, len(p))) if all(e["op"] != "tz" for e in x)])
    h = gt.c26(r, 60)
    pool.append([x for x in h if all(e["op"] != "hbulk" for e in x)])
    pool.append([x for x in gj.c28(r, 60) if all(e["op"] == "json" for e in x)])
    return pool

def c30(r, n):
    out = []
    pool = textpool(r)
    g, jg = G(r), gj.JG(r)
    def typed(shared):
        tg = TG(r, exts=False); s = []
        tvs = [(t, g.val(t)) for t in (tg.any(2) for _ in range(r.randrange(1, 4)))]
        for t, v in tvs: s.append(enc(t, v, r.choice(PATHS), eby(r, t)))
        s.append(ev("open", src="wire", en="eof", ch=r.choice(CHS), last=len(tvs)))
        for i, (t, v) in enumerate(tvs): s.append(dec(t, 3 if i == 0 else 0, r.choice(PATHS), dby(r, t)))
        s.append(ev("look", t=tvs[0][0], sl=3))
        return s
    def slots(shared):
        s = []
        for _ in range(r.randrange(1, 4)):
            i, t = r.choice(shared["vars"])
            s.append(ev("encs", t=t, sl=i, path=r.choice(PATHS), by=r.choice(["val", "ptr", "marsh"])))
            if r.random() < .4: s.append(ev("look", t=t, sl=i))
        return s
    def dyn(shared):
        ag, vg = shared["ag"], shared["vg"]
        s = []
        k, nm = ga.target(r, ag)
        v = vg.val(nm)
        if ga.small(v, 500):
            s += [ga.aenc(nm, v, **k), ev("open", src="wire", en="eof", ch=r.choice(CHS), last=1), ga.adec(nm, 3, **k), ga.alook(3), ga.areenc(nm, 3, **k)]
        s += [lit(ga.pyvar(r)), ga.adec(nm, 0, **k)]
        k, nm = ga.target(r, ag)
        s += [lit(ga.pyvar(r)), ga.adec(nm, 0, **k), ga.actdec(k.get("act", 5), ga.pyvar(r))]
        if shared["obj"]:
            k, nm = shared["obj"]
            s += [ga.areenc(nm, 1, **k), ga.alook(1)]
        for form, l in (("type", ag.ab.types), ("struct", ag.ab.structs), ("variant", ag.ab.variants)):
            if l and r.random() < .5: s.append(ga.lookup(form, r.choice(l)[0]))
        return s
    def opts(): return dict(lims=[r.randrange(200)], short=False, once=False, er=0, en="eof", ch=r.choice([[], [500], [4096]]), rk="", wk="", **{"with": False})
    def long(shared):
        s = []
        for _ in range(r.randrange(1, 3)):
            o = opts()
            k = r.choice([130, 257, 300, 600, 1025, 2049, 3000, 4097, 9000, 20000, 70000])
            c = r.random()
            if c < .6: s.append(ev("huge", t=T(r.choice(["str", "bytes", "cbytes", "blob"])), v=V("s", [r.randrange(256)]), form="len", n=k, path=r.choice(PATHS), **o))
            elif c < .9:
                t, v = r.choice([(T("u8"), num(r.randrange(256))), (T("str"), V("s", [r.randrange(97, 123)])), (T("name"), num(r.randrange(1000))), (struct(T("u16"), T("str")), V("q", (), [num(r.randrange(999)), V("s", [120])]))])
                s.append(ev("huge", t=t, v=v, form="slice", n=min(k, 3000), path=r.choice(PATHS), **o))
            else: s.append(ev("ahuge", nm=list(b"bytes"), v={"k": "bytes", "b": [], "e": [V("s", [r.randrange(256)] * r.choice([300, 1500, 3000]))]}, n=r.randrange(1, 4), **o))
        return s
    def text(shared):
        s = []
        for _ in range(r.randrange(1, 3)): s += r.choice(r.choice(pool))
        return s
    for t in ("str", "bytes", "cbytes", "blob"):        # all of them with long ones
        for k in (129, 300, 600, 1500, 3000, 5000, 9000, 70000):
            gs = [[ev("huge", t=T(t), v=V("s", [r.randrange(256)]), form="len", n=k + r.randrange(-1, 2), path=r.choice(PATHS), **opts()) for _ in range(3)] for _ in range(3)]
            out.append([ev("par", mode="free", gs=gs, sch=[1])])
    for p in pool:              # all of them with the same kind of call
        for _ in range(4):
            gs = [sum((r.choice(p) for _ in range(4)), [])[:16] for _ in range(3)]
            out.append([ev("par", mode="free", gs=gs, sch=[1])])
    for k in CHAIN:
        t = T(k)
        gs = [sum(([enc(t, g.val(t), r.choice(PATHS), eby(r, t)), ev("open", src="wire", en="eof", ch=r.choice(CHS), last=1), dec(t, 0, r.choice(PATHS), dby(r, t))] for _ in range(3)), []) for _ in range(3)]
        out.append([ev("par", mode="free", gs=gs, sch=[1])])
        if k in gj.SC:
            gs = [[gj.js(r, t, jg.val(t)) for _ in range(3)] for _ in range(3)]
            out.append([ev("par", mode="free", gs=gs, sch=[1])])
    while len(out) < n:
        ag = ga.AG(r, shadow=r.random() < .2)
        vg = ga.VG(r, ag.ab)
        pre, shared = [ga.setabi(r, ag.ab, "direct")], {"ag": ag, "vg": vg, "vars": [], "obj": None}
        for i in (1, 2):
            t = T(r.choice(CHAIN)) if r.random() < .5 else TG(r).any(2)
            shared["vars"].append((i, t)); pre.append(ev("poke", t=t, v=g.val(t), sl=i))
        k, nm = ga.target(r, ag); v = vg.val(nm)
        if ga.small(v, 500):
            pre += [ga.aenc(nm, v, **k), wire(), ga.adec(nm, 1, **k)]; shared["obj"] = (k, nm)
        mode = "sched" if r.random() < .3 else "free"
        G_ = r.choice([2, 2, 3, 4, 6])
        def prog():
            p = []
            for _ in range(r.randrange(1, 4)): p += r.choice([typed, slots, dyn, dyn, text, long])(shared)
            return p[:14]
        same = r.random() < .4
        p0 = prog()
        gs = [copy.deepcopy(p0) if same else prog() for _ in range(G_)]
        sch = []
        while len(sch) < 60: sch += [r.randrange(1, G_ + 1)] * r.choice([1, 1, 1, 2, 3, 7])
        out.append(pre + [ev("par", mode=mode, gs=gs, sch=sch)])
    return out

