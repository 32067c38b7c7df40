#!/usr/bin/env python3
"""check.py PROPERTY | --replay FILE : decide one property (see DESIGN.md).

exit 0  the property held on everything explored
exit 1  VIOLATION property=<id> replay=<path>
exit 2  the check itself failed
"""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile, time, resource, copy
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import profiles

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
SPEC = os.path.join(VERIF, "spec")
ENV = dict(os.environ, GOFLAGS=("-mod=mod " + os.environ.get("VERIF_GOFLAGS", "")).strip(), GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1")

class CheckError(Exception): pass

def log(*a): print(*a, flush=True)

def build(scratch, race=False):
    src = os.path.join(scratch, "driver")
    if not os.path.isdir(src): shutil.copytree(os.path.join(VERIF, "driver"), src)
    exe = os.path.join(scratch, "drv" + ("_race" if race else ""))
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", exe, "."]
    p = subprocess.run(cmd, cwd=src, env=ENV, capture_output=True, text=True, timeout=600)
    if p.returncode: raise CheckError("driver does not build:\n" + p.stderr[-3000:])
    return exe

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))

def execute(exe, scripts, scratch, name="run", hang=30, race=False, timeout=600):
    """run the scripts; returns recorded sessions (list of event lists)"""
    sp, tp = os.path.join(scratch, name + ".script"), os.path.join(scratch, name + ".raw")
    with open(sp, "w") as f:
        for s in scripts: f.write(json.dumps({"ev": s}, separators=(",", ":")) + "\n")
    if os.path.exists(tp): os.remove(tp)
    start, deaths, t0 = 0, {}, time.time()
    env = dict(ENV, DRIVER_HANG=str(hang), GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="single")
    while True:
        try:
            p = subprocess.run([exe, sp, tp, str(start)], env=env, capture_output=True, text=True, errors="replace",
                               timeout=max(5, timeout - (time.time() - t0)), preexec_fn=None if race else limits)
        except subprocess.TimeoutExpired:
            raise CheckError("the driver did not finish in time")
        if p.returncode == 0: break
        if p.returncode == 2 and "driver:" in p.stderr and "goroutine" not in p.stderr: raise CheckError(p.stderr[-3000:])
        last = None
        with open(tp) as f:
            for line in f:
                if line.endswith("\n"): last = json.loads(line)
        if last is None: raise CheckError("driver died at once:\n" + p.stderr[-3000:])
        if "e" in last: raise CheckError("driver died between events:\n" + p.stderr[-3000:])
        kind = {77: "hang", 66: "race"}.get(p.returncode, "crash")
        deaths[(last["s"], last["i"])] = (kind, p.stderr[-1500:])
        start = last["s"] + 1
        if len(deaths) >= 3 or time.time() - t0 > timeout: break     # enough to report
    out = [[] for _ in scripts]
    with open(tp) as f:
        for line in f:
            d = json.loads(line)
            if "e" in d: out[d["s"]].append(d["e"])
    for (s, i), (kind, msg) in deaths.items():
        e = copy.deepcopy(scripts[s][i]); e["o"] = {"out": kind, "msg": msg}
        out[s] = out[s][:i] + [e]
    return out

def expand(sessions):
    """a session that ends in concurrent calls stands for one session per goroutine;
    returns the sessions and, for each, which recorded session it came from"""
    out, src = [], []
    for i, ses in enumerate(sessions):
        if ses and ses[-1]["op"] == "par" and ses[-1]["o"].get("out") == "ok":
            for g in ses[-1]["o"]["gs"]:
                out.append(ses[:-1] + g); src.append(i)
        else:
            out.append(ses); src.append(i)
    return out, src

def tlc(workdir, module, cfg=None, workers=8, timeout=800, extra=(), heap="6g"):
    """run TLC in workdir; returns (status, output); status: ok, deadlock, violated, error"""
    md = tempfile.mkdtemp(prefix="md", dir=workdir)
    cmd = ["tlc", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
    env = dict(os.environ, JAVA_TOOL_OPTIONS="-Xmx%s -Xss512m" % heap)
    try:
        p = subprocess.run(cmd, cwd=workdir, env=env, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC ran out of time on " + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    o = p.stdout + p.stderr
    if p.returncode == 0: return "ok", o
    if p.returncode == 11: return "deadlock", o
    if p.returncode in (12, 13): return "violated", o
    return "error", o

def stats(o):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def specdir(scratch, name):
    d = os.path.join(scratch, name)
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")): shutil.copy(os.path.join(SPEC, f), d)
    return d

def write_traces(d, sessions):
    with open(os.path.join(d, "traces.ndjson"), "w") as f:
        for s in sessions: f.write(json.dumps({"ev": s}, separators=(",", ":")) + "\n")

BATCH = 6 << 20        # bytes of recorded sessions that one TLC run takes

def validate(sessions, scratch, name="trace"):
    """returns (None, stats, output) or ((session, event), stats, output)"""
    if name != "trace": return validate1(sessions, scratch, name)
    parts, size = [[0, 0]], 0
    for i, s in enumerate(sessions):
        k = len(json.dumps(s, separators=(",", ":")))
        if size and size + k > BATCH:
            parts.append([i, i]); size = 0
        parts[-1][1] = i + 1; size += k
    if len(parts) == 1: return validate1(sessions, scratch, name)
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        rs = list(ex.map(lambda p: validate1(sessions[p[0]:p[1]], scratch, "trace_%d" % p[0], 4), parts))
    st = (sum(r[1][0] for r in rs), sum(r[1][1] for r in rs))
    for p, r in zip(parts, rs):
        if r[0] is not None: return (r[0][0] + p[0], r[0][1]), st, r[2]
    return None, st, rs[0][2]

def validate1(sessions, scratch, name, workers=8):
    d = specdir(scratch, name)
    write_traces(d, sessions)
    st, o = tlc(d, "Trace", workers=workers)
    shutil.rmtree(d, ignore_errors=True)
    if st == "ok": return None, stats(o), o
    if st == "deadlock":
        ls, ss = re.findall(r"^/\\ l = (\d+)", o, re.M), re.findall(r"^/\\ s = (\d+)", o, re.M)
        return (int(ss[-1]) - 1, int(ls[-1]) - 1), stats(o), o
    # an observation so far off that the specification cannot even be evaluated on it: make sure it is that
    # one session, and not the tool, and count it as rejected
    if "OutOfMemory" not in o and "StackOverflow" not in o and name.startswith("trace"):
        ls, ss = re.findall(r"^/\\ l = (\d+)", o, re.M), re.findall(r"^/\\ s = (\d+)", o, re.M)
        if ls and ss:
            i, k = int(ss[-1]) - 1, int(ls[-1]) - 1
            try:
                validate([sessions[i][:k]], scratch, "before_" + name)
            except CheckError:
                raise CheckError("TLC failed on recorded traces:\n" + o[-4000:])
            try:
                if validate([sessions[i][:k + 1]], scratch, "again_" + name)[0] is None: raise CheckError("TLC failed once:\n" + o[-4000:])
            except CheckError as e:
                if "TLC failed on" not in str(e): raise
            return (i, k), stats(o), o
    raise CheckError("TLC failed on recorded traces:\n" + o[-4000:])

def rejections(sessions, scratch, name="all"):
    """every rejected session, as (session, event)"""
    d = specdir(scratch, name)
    write_traces(d, sessions)
    st, o = tlc(d, "Trace", "TraceAll.cfg")
    if st != "ok": raise CheckError("TLC failed on recorded traces:\n" + o[-4000:])
    return sorted({(int(a) - 1, int(b) - 1) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', o)})

def main(prop):
    t0 = time.time()
    prof = profiles.PROFILES[prop]
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        return run(prop, prof, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def write_replay(prop, session, k, note):
    rd = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    p = os.path.join(rd, "%s_seed%d.json" % (prop, SEED))
    with open(p, "w") as f:
        json.dump({"property": prop, "seed": SEED, "tier": TIER, "rejected_event": k, "note": note, "session": session}, f)
    return p

def brief(e):
    x = json.dumps(e)
    return x if len(x) < 1500 else x[:1500] + "..."

def dress(scripts, r):
    """which kinds of readers and writers the code sees: none of them may matter"""
    for s in scripts:
        for e in s:
            if e["op"] in ("open", "cuts", "acuts", "enc", "aenc", "faults", "afaults", "custerr"): e.setdefault("er", r.choice([0, r.randrange(16 if e["op"] in ("enc", "aenc", "faults", "afaults") else 15)]))
            if e["op"] in ("huge", "ahuge"):    # where its writers fail and its readers end
                hd = 1 + (e["n"] > 127) + (e["n"] > 16383) + (e["n"] > 2097151)
                big = e["n"] > 100000 or e.get("form") in ("acts", "cfa")
                pts = [r.choice([0, 64, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 12288, 16384, 32768, 65536]) + r.choice([hd, hd, hd, r.randrange(-1, 7)]) for _ in range(3 if big else 16)]
                pts += [r.randrange(e["n"]) for _ in range(1 if big else 4)] + [0, -1, -2, 0 - 2 - r.randrange(40)]
                for k, x in (("lims", pts), ("short", r.random() < .5), ("once", r.random() < .5), ("er", r.choice([0, r.randrange(15)])), ("en", r.choice(["eof", "err"])),
                             ("ch", r.choice([[], [], [4096], [1000, 1, 3000], [65536], [511, 0, 513], [100000]])), ("with", r.random() < .3),
                             ("rk", r.choice(["", "full", "bytes", "buffer", "strings", "limit", "bufio"])), ("wk", r.choice(["", "full"]))): e.setdefault(k, x)
            if e["op"] in ("enc", "faults", "print", "jprint", "float", "adigest", "json", "aenc"): e.setdefault("mod", r.random() < .6)
            if e["op"] in ("aenc", "afaults"): e.setdefault("ni", r.random() < .3)
            if e["op"] in ("open", "cuts", "acuts", "bulk"): e.setdefault("rk", r.choice(["", "", "full", "bytes", "buffer", "strings", "limit", "bufio"]))
            elif e["op"] in ("enc", "encs", "aenc", "areenc", "faults", "afaults"): e.setdefault("wk", r.choice(["", "", "full", "full", "buffer", "builder", "bufio"]))

def run(prop, prof, scratch, t0):
    r = random.Random("%s/%d" % (prop, SEED))
    n = prof["n"][1 if TIER == "thorough" else 0]
    race = prof.get("race", False)
    prepared = []
    if "prepare" in prof:
        prepared, rnd = prof["prepare"](r, n, scratch, sys.modules[__name__])     # may put sources beside the driver's
    exe = build(scratch, race)
    # 1. exhaustive model checking of the design, emitting behaviours
    mc = []
    scripts, origin = [], []
    for m in prof.get("mc", []):
        name = m["cfg"] if TIER != "thorough" or "cfgT" not in m else m["cfgT"]
        d = specdir(scratch, "mc_" + name)
        st, o = tlc(d, m["module"], name + ".cfg", timeout=850)
        if m.get("expect"):       # a control: the model must be able to fail
            if st != m["expect"]: raise CheckError("control %s: %s instead of %s\n%s" % (name, st, m["expect"], o[-3000:]))
            mc.append({"model": name, "states": stats(o)[0], "distinct": stats(o)[1], "behaviours": 0, "control": st})
            log("control %s: %s, as it must be" % (name, st))
            shutil.rmtree(d); continue
        if st != "ok": raise CheckError("model %s: %s\n%s" % (name, st, o[-3000:]))
        g, ds = stats(o)
        lines = set()
        for f in os.listdir(d):
            if f.endswith(".script"):
                with open(os.path.join(d, f)) as g0: lines.update(x for x in g0 if x.strip())
        shutil.rmtree(d)
        lines = sorted(lines)
        if len(lines) > m.get("cap", 20000): lines = r.sample(lines, m.get("cap", 20000))
        emitted = len(lines)
        for x in lines:
            scripts.append(json.loads(x)["ev"]); origin.append(name)
        if emitted < m.get("min", 0): raise CheckError("model %s emitted only %d behaviours" % (name, emitted))
        mc.append({"model": name, "states": g, "distinct": ds, "behaviours": emitted})
        log("model %s: %d states, %d distinct, %d behaviours" % (name, g, ds, emitted))
    # 2. random sessions
    if "prepare" not in prof: rnd = prof["gen"](r, n)
    scripts += rnd; origin += ["random"] * len(rnd)
    # 3. real executions
    t1 = time.time()
    dress(scripts, random.Random("dress/%s/%d" % (prop, SEED)))
    sessions = execute(exe, scripts, scratch, hang=prof.get("hang", 30), race=race)
    sessions += prepared; origin += ["prepare"] * len(prepared)
    recorded = sessions
    sessions, src = expand(recorded)
    origin = [origin[i] for i in src]
    nev = sum(len(s) for s in sessions)
    t2 = time.time()
    log("%d sessions, %d events executed on the real code (%.1fs)" % (len(sessions), nev, t2 - t1))
    # 4. the specification judges them
    bad, st, o = validate(sessions, scratch)
    t3 = time.time()
    log("trace validation: %s (%.1fs)" % ("rejected" if bad else "accepted", t3 - t2))
    ev = evidence(prop, prof, mc, sessions, origin, st, bad, t0, nev)
    if bad:
        s, k = bad
        e = sessions[s][k]
        p = write_replay(prop, recorded[src[s]] if sessions[s] is not recorded[src[s]] else sessions[s][:k + 1], k, "origin " + origin[s])
        log("rejected: session %d (%s) event %d: %s" % (s, origin[s], k, brief(e)))
        if os.environ.get("VERIF_ALL"):
            for i, j in rejections(sessions, scratch)[:int(os.environ["VERIF_ALL"])]:
                log("ALL session %d event %d: %s" % (i, j, brief(sessions[i][j])))
        log("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    # 5. the binding is not vacuous: corrupted recordings must be rejected
    nc = selftest(prop, sessions, scratch, r, 6 if TIER == "thorough" else 1)
    ev["coverage"]["corrupted_traces_rejected"] = nc
    write_evidence(prop, ev)
    log("PASS property=%s (%.1fs)" % (prop, time.time() - t0))
    return 0

def corrupt(e, r):
    """change one observed field; None if there is nothing to change"""
    e = copy.deepcopy(e); o = e["o"]
    c = []
    if isinstance(o.get("b"), list) and o["b"] and o.get("out") == "ok": c.append("b")
    if isinstance(o.get("v"), dict) and o.get("out") == "ok" and o["v"].get("b") and o["v"]["k"] in ("n", "m", "s"): c.append("v")
    if isinstance(o.get("s"), list) and o["s"] and o.get("out") == "ok": c.append("s")
    if isinstance(o.get("rs"), list) and o["rs"] and isinstance(o["rs"][-1], dict) and o["rs"][-1].get("out") in ("ok", "err"): c.append("rs")
    if not c: return None
    k = r.choice(c)
    if k in ("b", "s"):
        i = r.randrange(len(o[k])); o[k][i] ^= 1 + r.randrange(127)
    elif k == "v":
        i = r.randrange(len(o["v"]["b"])); o["v"]["b"][i] ^= 1 if o["v"]["k"] != "n" or o["v"]["b"][i] != 1 else 6
    else:
        x = o["rs"][-1]; x["out"] = "err" if x["out"] == "ok" else "ok"
    return e

def selftest(prop, sessions, scratch, r, want):
    cand = [(i, j) for i, s in enumerate(sessions) for j, e in enumerate(s) if len(json.dumps(e)) < 20000 and e["op"] not in profiles.NOCORRUPT]
    r.shuffle(cand)
    done = loose = 0        # loose: the change led to something the specification allows as well
    for i, j in cand[:400]:
        c = corrupt(sessions[i][j], r)
        if c is None: continue
        s = sessions[i][:j] + [c]
        bad, _, _ = validate([s], scratch, "self%d_%d" % (i, j))
        if bad is None: loose += 1
        else: done += 1
        if done >= want: break
        if loose >= 8 * want: raise CheckError("corrupted recordings are accepted: " + brief(c))
    return done

def evidence(prop, prof, mc, sessions, origin, st, bad, t0, nev):
    ops = {}
    for s in sessions:
        for e in s:
            k = e["op"] + ":" + str(e["o"].get("out"))
            ops[k] = ops.get(k, 0) + 1
    ev = {"property": prop, "level": "model_checking", "tier": TIER, "seed": SEED,
          "result": "violation" if bad else "held",
          "coverage": {"states": sum(m["distinct"] for m in mc) + st[1], "transitions": sum(m["states"] for m in mc) + st[0],
                       "traces_validated_against_impl": len(sessions),
                       "model_states": mc, "trace_states": st[1], "events": nev, "events_by_call_and_outcome": ops,
                       "behaviours_from_model": sum(1 for x in origin if x != "random"), "random_sessions": sum(1 for x in origin if x == "random"),
                       "samples": [brief(s) for s in sessions[:: max(1, len(sessions) // 3)][:3]]},
          "wall_s": round(time.time() - t0, 1)}
    write_evidence(prop, ev)
    return ev

def write_evidence(prop, ev):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)

def replay(path):
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        exe = build(scratch, profiles.PROFILES[d["property"]].get("race", False))
        script = [{k: v for k, v in e.items() if k != "o"} for e in d["session"]]
        if "prepare" in profiles.PROFILES[d["property"]]: raise CheckError("replay by running the check with VERIF_SEED=%d VERIF_TIER=%s" % (d["seed"], d["tier"]))
        ss = execute(exe, [script], scratch)
        bad, _, _ = validate(expand(ss)[0], scratch)
        for e in ss[0]: log(brief(e))
        if bad:
            log("rejected at event %d" % bad[1]); log("VIOLATION property=%s replay=%s" % (d["property"], path)); return 1
        log("accepted"); return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    try:
        sys.exit(replay(sys.argv[2]) if sys.argv[1] == "--replay" else main(sys.argv[1]))
    except CheckError as e:
        log("CHECK ERROR:", e); sys.exit(2)
