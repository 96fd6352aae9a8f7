#!/usr/bin/env python3
"""Check runner: ./check.py <PROPERTY> | setup | replay <file> | list

Builds the code under test from /repo's working tree, runs the property's legs
(scenario families under a monitor configuration) in parallel, and writes
evidence/<PROPERTY>.json.  Exit 0: held on everything explored; 1 and a
VIOLATION line: broken; 2: the check itself could not decide.
"""
import json, mmap, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import build as B
from vlib import plan

NCTR, NHASH = 128, 1 << 20
HDR = 13
FMT_FIELDS = ["magic", "cur", "done", "nontrivial", "events", "points", "switches", "preempt", "blocks", "leaps", "spurious", "vtime", "inconclusive"]
OFF_CTR = HDR * 8 + 8
OFF_NS = OFF_CTR + NCTR * 56
OFF_SMP = OFF_NS + 8
OFF_NH = OFF_SMP + 6 * 4096
OFF_H = OFF_NH + 8
SIZE = OFF_H + NHASH * 8
STALL_S = 120

def read_shared(path):
    d = {}
    with open(path, "rb") as f:
        m = mmap.mmap(f.fileno(), 0, prot=mmap.PROT_READ)
        vals = struct.unpack_from("<%dQ" % HDR, m, 0)
        d.update(zip(FMT_FIELDS, vals))
        n, = struct.unpack_from("<Q", m, HDR * 8)
        d["ctr"] = {}
        for i in range(min(n, NCTR)):
            nm, v = struct.unpack_from("<48sQ", m, OFF_CTR + i * 56)
            d["ctr"][nm.split(b"\0")[0].decode()] = v
        ns, = struct.unpack_from("<Q", m, OFF_NS)
        d["samples"] = [m[OFF_SMP + i * 4096: OFF_SMP + (i + 1) * 4096].split(b"\0")[0].decode("latin1") for i in range(min(ns, 6))]
        nh, = struct.unpack_from("<Q", m, OFF_NH)
        d["hashes"] = struct.unpack_from("<%dQ" % min(nh, NHASH), m, OFF_H)
        m.close()
    return d

def peek(path):
    try:
        with open(path, "rb") as f:
            b = f.read(HDR * 8)
        if len(b) < HDR * 8:
            return (0, 0)
        v = struct.unpack("<%dQ" % HDR, b)
        return (v[1], v[2])
    except OSError:
        return (0, 0)

def symbolise(exe, text):
    pcs = sorted(set(re.findall(r"(?:pc=|BT |\s)(0x[0-9a-f]{6,})", text)))[:60]
    if not pcs:
        return text
    try:
        r = subprocess.run(["addr2line", "-Cfpie", exe] + pcs, capture_output=True, text=True, timeout=60)
        lines = [l for l in r.stdout.splitlines() if not l.startswith(" (inlined")]
        mp = {p: l for p, l in zip(pcs, lines)}
    except Exception:
        return text
    return text + "\nsymbols:\n" + "\n".join("  %s %s" % (p, mp[p][:240]) for p in pcs if p in mp and "??" not in mp[p][:2])

class Leg:
    def __init__(self, d, tier, seed):
        self.name = d.get("name") or "%s@%s" % (d["family"], d["cfg"])
        self.driver, self.family, self.cfg = d["driver"], d["family"], d["cfg"]
        self.opts = dict(d.get("opts", {})); self.real = d.get("real", B.CONFIGS[self.cfg].get("real", False))
        self.n = d["thorough"] if tier == "thorough" and "thorough" in d else d["quick"] * (1 if tier == "quick" else d.get("mul", 20))
        self.chunk = d.get("chunk", 500); self.seed = seed * 1000003 + d.get("salt", 0)
        self.cap = d.get("cap", 60) * (1 if tier == "quick" else d.get("capmul", 20))
        self.numa = d.get("numa", False); self.env = d.get("env", {}); self.width = d.get("width", 1)
        self.expect = d.get("expect", []); self.start = d.get("start", 0)
        self.stats = None

    def argv(self, exe, a, b, prog=None):
        v = [exe, "--family", self.family, "--seed", str(self.seed), "--from", str(a), "--to", str(b)]
        if prog:
            v += ["--prog", prog]
        if self.real:
            v.append("--real")
        for k, x in sorted(self.opts.items()):
            v += ["--opt", "%s=%s" % (k, x)]
        return v

def limits(cfg):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cfg not in ("asan", "tsan"):
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        os.setpgid(0, 0)
    return f

def run_chunk(leg, exe, a, b, tmpdir, tag):
    """returns (status, output, shared) status: ok | fail | hang | killed"""
    prog = os.path.join(tmpdir, "p.%s" % tag)
    out = os.path.join(tmpdir, "o.%s" % tag)
    env = dict(os.environ); env.update(B.CONFIGS[leg.cfg].get("env", {})); env.update(leg.env)
    with open(out, "wb") as fo:
        p = subprocess.Popen(leg.argv(exe, a, b, prog), stdout=fo, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, preexec_fn=limits(leg.cfg), cwd=tmpdir)
    last, t_last, status = None, time.time(), None
    delay = 0.005
    while True:
        try:
            rc = p.wait(timeout=delay); break
        except subprocess.TimeoutExpired:
            pass
        delay = min(0.25, delay * 1.6)
        k = peek(prog)
        if k != last:
            last, t_last = k, time.time()
        elif time.time() - t_last > STALL_S:
            status = "hang"
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait(); rc = -9; break
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    text = open(out, "rb").read()[-60000:].decode("utf8", "replace")
    shd = read_shared(prog) if os.path.exists(prog) and os.path.getsize(prog) == SIZE else None
    for x in (prog, out):
        try: os.unlink(x)
        except OSError: pass
    if status is None:
        status = "ok" if rc == 0 and (leg.cfg != "tsan" or "WARNING: ThreadSanitizer" not in text) else "killed" if rc in (-9, 137) else "setup" if rc == 70 else "fail"
    return status, text, shd

def classify(status, text):
    if status == "hang":
        return "hang"
    m = re.search(r"^CTLFAIL.*?kind=(\S+)", text, re.M)
    if m:
        return m.group(1)
    for pat, k in ((r"AddressSanitizer: (\S+)", "asan:"), (r"LeakSanitizer", "leak"), (r"runtime error: (.{0,60})", "ubsan:"), (r"ThreadSanitizer: ([a-z ]+)", "tsan:"), (r"Assertion `(.{0,80})", "assert:"), (r"ORACLE (\S+)", "oracle:")):
        m = re.search(pat, text)
        if m:
            return k + (m.group(1).strip().replace(" ", "_") if m.groups() else "")
    return "crash"

def detail(text):
    m = re.search(r"^CTLFAIL.*$", text, re.M)
    if m:
        return m.group(0)[:400]
    for l in text.splitlines():
        if re.search(r"ERROR: |runtime error|WARNING: Thread|Assertion|ORACLE|terminate", l):
            return l[:400]
    return (text.strip().splitlines() or ["(no output)"])[-1][:400]

class Found(Exception):
    pass

def run_legs(pid, legs, exes, tier, seed, tmpdir):
    lock = threading.Lock(); queue = []; t0 = time.time()
    deadline = {}
    for li, leg in enumerate(legs):
        leg.stats = dict(done=0, nontrivial=0, events=0, points=0, switches=0, preempt=0, blocks=0, leaps=0, spurious=0, vtime=0, inconclusive=0, ctr={}, samples=[], hashes=set(), chunks=0, skipped=0, wall=0.0)
        a = leg.start
        end = leg.start + leg.n
        while a < end:
            b = min(end, a + leg.chunk); queue.append((li, a, b)); a = b
    # interleave the legs so that each is sampled early
    per = {}
    for it in queue:
        per.setdefault(it[0], []).append(it)
    queue = []
    mx = max((len(v) for v in per.values()), default=0)
    for v in per.values():
        for i, it in enumerate(v):
            queue.append(((i + 0.5) / len(v), it))
    queue = [it for _, it in sorted(queue, key=lambda x: (x[0], x[1][0]))]
    total_cap = sum(l.cap for l in legs)
    total_cap = min(total_cap, plan.TOTAL_CAP[tier])
    fails = []; errors = []; pos = [0]; started = [0]
    stop = threading.Event()
    def worker(w):
        while not stop.is_set():
            with lock:
                if pos[0] >= len(queue):
                    return
                li, a, b = queue[pos[0]]; pos[0] += 1
            leg = legs[li]
            if time.time() - t0 > total_cap:
                with lock: leg.stats["skipped"] += b - a
                continue
            tag = "%d.%d.%d" % (li, a, w); c0 = time.time()
            st, text, s = run_chunk(leg, exes[leg.exe_name], a, b, tmpdir, tag)
            if st in ("killed", "hang"):
                st2, text2, s2 = run_chunk(leg, exes[leg.exe_name], a, b, tmpdir, tag + "r")
                if st2 == "ok":
                    st, text, s = st2, text2, s2
                elif st == "hang" and st2 == "hang":
                    st, text, s = "fail", "hang: no progress for %ds, twice\n%s" % (STALL_S, text2), s2
                    text = "CTLFAIL kind=hang case made no progress\n" + text
                elif st2 == "killed":
                    with lock: errors.append("%s [%d,%d): killed twice (memory?)" % (leg.name, a, b))
                    stop.set(); return
                else:
                    st, text, s = st2, text2, s2
                    if st == "hang": st = "fail"; text = "CTLFAIL kind=hang case made no progress\n" + text
            if st == "setup":
                with lock: errors.append("%s: %s" % (leg.name, text[-500:]))
                stop.set(); return
            with lock:
                S = leg.stats; S["chunks"] += 1; S["wall"] += time.time() - c0
                if s:
                    for k in ("done", "nontrivial", "events", "points", "switches", "preempt", "blocks", "leaps", "spurious", "vtime", "inconclusive"):
                        S[k] += s[k]
                    for k, v in s["ctr"].items():
                        S["ctr"][k] = S["ctr"].get(k, 0) + v
                    if len(S["samples"]) < 3:
                        S["samples"] += s["samples"][:3 - len(S["samples"])]
                    S["hashes"].update(s["hashes"])
                if st == "fail":
                    cur = s["cur"] if s else a
                    fails.append((leg, a, cur, classify(st, text), text)); stop.set()
    nw = max(1, (os.cpu_count() or 4) // max(l.width for l in legs))
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(nw)]
    for t in ts: t.start()
    for t in ts: t.join()
    return fails, errors

def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) key=(\S+)\s+(.*)", l)
        if m:
            out.append(m.groups())
    return out

def check(pid, tier, seed):
    t0 = time.time()
    spec = plan.PROPS[pid]
    legs = [Leg(d, tier, seed) for d in spec["legs"]]
    targets = {}
    for l in legs:
        l.exe_name = "%s+%s" % (l.driver, l.cfg)
        targets[l.exe_name] = (l.exe_name.replace("+", "_"), l.cfg, [l.driver], l.numa)
    ev_path = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    try: os.unlink(ev_path)
    except OSError: pass
    try:
        ex = B.build(list(targets.values()))
    except B.BuildError as e:
        print("ERROR: build of the code under test failed\n%s" % e); return 2
    exes = {k: ex[v[0]] for k, v in targets.items()}
    tb = time.time() - t0
    tmpdir = tempfile.mkdtemp(prefix="vf.%s." % pid)
    try:
        fails, errors = run_legs(pid, legs, exes, tier, seed, tmpdir)
        if errors and not fails:
            print("ERROR: " + "; ".join(errors)); return 2
        viol = []
        for leg, a, cur, kind, text in fails[:3]:
            os.makedirs(os.path.join(HERE, "build", "replay"), exist_ok=True)
            rp = os.path.join(HERE, "build", "replay", "%s-%s-%d.json" % (pid, re.sub(r"\W+", "_", leg.name), cur))
            st2, text2, _ = run_chunk(leg, exes[leg.exe_name], a, cur + 1, tmpdir, "confirm") if kind != "hang" else ("fail", text, None)
            rec = dict(property=pid, leg=leg.name, driver=leg.driver, cfg=leg.cfg, numa=leg.numa, family=leg.family, seed=leg.seed, **{"from": a}, case=cur, opts=leg.opts, real=leg.real, env=leg.env,
                       kind=kind, reproduced=(st2 == "fail" and classify(st2, text2) == kind), output=symbolise(exes[leg.exe_name], text)[-40000:])
            json.dump(rec, open(rp, "w"), indent=1)
            viol.append((leg, kind, detail(text), rp, rec))
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
    known = [k for k in load_known() if k[0] == pid]
    new = [v for v in viol if not any(k[1] == v[1] for k in known)]
    hashes = set(); 
    for l in legs: hashes |= {hash((l.name, h)) for h in l.stats["hashes"]}
    tot = lambda k: sum(l.stats[k] for l in legs)
    samples = [s[:1500] for l in legs for s in l.stats["samples"][:2]][:6] or ["(none)"]
    starved = []
    if not viol:
        for l in legs:
            for e in l.expect:
                if l.stats["ctr"].get(e, 0) == 0: starved.append("%s:%s" % (l.name, e))
            if l.stats["done"] == 0: starved.append(l.name)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=tot("done"), distinct_nontrivial=len(hashes),
            rule="a case is one generated program (fibers, threads, scheduling algorithm, operations, timeouts) executed under one schedule; non-trivial by the family's own criterion (real contention, blocking, error or boundary reached); distinct = different hash of program, event log and schedule",
            samples=samples, monitored_events=tot("events"), scheduling_points=tot("points"), thread_switches=tot("switches"), preemptions=tot("preempt"), blocking_waits=tot("blocks"), clock_leaps=tot("leaps"), injected_spurious_wakeups=tot("spurious"), virtual_seconds=tot("vtime") / 1e9,
            legs=[dict(name=l.name, config=l.cfg, cases=l.stats["done"], nontrivial=l.stats["nontrivial"], distinct=len(l.stats["hashes"]), skipped_for_time=l.stats["skipped"], inconclusive=l.stats["inconclusive"], events=l.stats["events"], points=l.stats["points"], preemptions=l.stats["preempt"], cpu_s=round(l.stats["wall"], 1), observed=l.stats["ctr"]) for l in legs],
            starved=starved),
        wall_s=round(time.time() - t0, 2), build_s=round(tb, 2), violations=[dict(leg=v[0].name, kind=v[1], detail=v[2], replay=v[3]) for v in viol], assumptions=plan.ASSUMPTIONS)
    json.dump(ev, open(ev_path, "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d events, %d scheduling points, build %.1fs, total %.1fs" % (pid, tier, seed, tot("done"), len(hashes), tot("events"), tot("points"), tb, time.time() - t0))
    for l in legs:
        print("  %-28s cases=%d nontrivial=%d distinct=%d skipped=%d events=%d points=%d cpu=%.0fs" % (l.name, l.stats["done"], l.stats["nontrivial"], len(l.stats["hashes"]), l.stats["skipped"], l.stats["events"], l.stats["points"], l.stats["wall"]))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    if new:
        for leg, kind, det, rp, rec in new[:1]:
            print("  failing leg %s case %d: kind=%s reproduced=%s\n  %s" % (leg.name, rec["case"], kind, rec["reproduced"], det))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if starved:
        print("ERROR: monitors saw nothing where they must: " + ", ".join(starved)); return 2
    return 0

def replay(path):
    r = json.load(open(path))
    exe = list(B.build([("%s_%s" % (r["driver"], r["cfg"]), r["cfg"], [r["driver"]], r["numa"])]).values())[0]
    leg = Leg(dict(driver=r["driver"], family=r["family"], cfg=r["cfg"], opts=r["opts"], real=r["real"], quick=1), "quick", 1); leg.seed = r["seed"]; leg.env = r["env"]
    tmp = tempfile.mkdtemp(prefix="vfr.")
    try:
        st, text, _ = run_chunk(leg, exe, r["from"], r["case"] + 1, tmp, "x")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(symbolise(exe, text)); print("replay: %s (%s)" % (st, classify(st, text)))
    return 0 if st == "ok" else 1

def setup():
    t = {}
    for pid, spec in plan.PROPS.items():
        for d in spec["legs"]:
            n = "%s_%s" % (d["driver"], d["cfg"]); t[n] = (n, d["cfg"], [d["driver"]], d.get("numa", False))
    t0 = time.time()
    try:
        B.build(list(t.values()))
    except B.BuildError as e:
        print(e); return 1
    print("built %d executables in %.0fs" % (len(t), time.time() - t0)); return 0

if __name__ == "__main__":
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    a = sys.argv[1] if len(sys.argv) > 1 else "list"
    for i, x in enumerate(sys.argv):
        if x == "--tier": tier = sys.argv[i + 1]
        if x == "--seed": seed = int(sys.argv[i + 1])
    if a == "setup": sys.exit(setup())
    if a == "replay": sys.exit(replay(sys.argv[2]))
    if a == "list": print("\n".join(plan.PROPS)); sys.exit(0)
    sys.exit(check(a, tier, seed))
