#!/usr/bin/env python3
"""check.py <property>: decides one property by seeded deterministic simulation of /repo's current code.
exit 0 held on everything explored; exit 1 + VIOLATION line; anything else is an error of the check."""
import os, sys, json, time, subprocess, tempfile, re, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simbuild
from units import UNITS, CHECKS
V = simbuild.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = int(os.environ.get("SIM_JOBS", os.cpu_count() or 4))
REALSTUB = {}

def log(*a): print(*a, flush=True)
def die(msg): log("CHECK-ERROR:", msg); sys.exit(2)

def known_findings(prop):
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) scenario=(\S+) match="([^"]*)" (.*)', line)
            if m and m.group(1) == prop: out.append(dict(scenario=m.group(2), match=m.group(3), what=m.group(4).strip()))
    return out

def symbolise(binary, text):
    addrs = sorted(set(re.findall(r"@([0-9a-f]{4,8})\b", text)))
    if not addrs: return text
    try:
        r = subprocess.run(["addr2line", "-Cfse", binary] + ["0x" + a for a in addrs], capture_output=True, text=True, timeout=60).stdout.splitlines()
        m = {a: (r[2 * i], r[2 * i + 1]) for i, a in enumerate(addrs)}
        def short(f): return re.sub(r"\(.*", "", re.sub(r"<[^<>]*>", "<>", re.sub(r"<[^<>]*>", "<>", f)))[:90]
        return re.sub(r"@([0-9a-f]{4,8})\b", lambda k: f"[{short(m[k.group(1)][0])} {m[k.group(1)][1]}]" if k.group(1) in m and not m[k.group(1)][0].startswith("?") else "", text)
    except Exception: return text

class Trace:
    def __init__(s): s.head = []; s.W = []; s.F = []; s.E = []
    @staticmethod
    def load(path):
        t = Trace()
        for l in open(path):
            if l.startswith("W "): t.W.append(int(l[2:]))
            elif l.startswith("F "): t.F.append(l.split()[1:])
            elif l.startswith("E "): t.E.append(l.split()[1:])
            elif l.startswith(("scenario ", "seed ")): t.head.append(l.strip())
        return t
    def write(s, path, extra=()):
        with open(path, "w") as f:
            for h in s.head: f.write(h + "\n")
            for h in extra: f.write(h + "\n")
            for w in s.W: f.write(f"W {w}\n")
            for x in s.F: f.write("F " + " ".join(map(str, x)) + "\n")
            for x in s.E: f.write("E " + " ".join(map(str, x)) + "\n")
    def copy(s): t = Trace(); t.head = list(s.head); t.W = list(s.W); t.F = list(s.F); t.E = list(s.E); return t
    def size(s): return len(s.W), sum(1 for w in s.W if w), len(s.F), len(s.E)

class Batch:
    def __init__(s, binary, tmp, scen):
        s.tmp = tmp; s.n = 0
        s.p = subprocess.Popen([binary, "--scenario", scen, "--batch", "-", "--cpu", "20"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    def run(s, t):
        f = os.path.join(s.tmp, "cand.replay"); t.write(f); s.n += 1
        try:
            s.p.stdin.write(f + "\n"); s.p.stdin.flush()
            return json.loads(s.p.stdout.readline())
        except Exception: return {}
    def close(s):
        try: s.p.stdin.close(); s.p.wait(5)
        except Exception: s.p.kill()

def minimise(binary, t, cls, tmp, budget):
    end = time.time() + budget
    b = Batch(binary, tmp, next(h.split()[1] for h in t.head if h.startswith('scenario')))
    def bad(c): r = b.run(c); return r.get("status") == 2 and r.get("class") == cls
    if not bad(t): b.close(); return None, b.n
    def ddmin(get, setf):
        nonlocal t
        n = 2
        items = get(t)
        while items and time.time() < end:
            size = max(1, (len(items) + n - 1) // n); done = False
            for i in range(0, len(items), size):
                if time.time() > end: break
                c = t.copy(); setf(c, items[:i] + items[i + size:])
                if bad(c): t = c; items = get(t); n = max(2, n - 1); done = True; break
            if not done:
                if size == 1: break
                n = min(len(items), n * 2)
    def setE(c, v): c.E = v
    def setF(c, v): c.F = v
    for rnd in range(3):
        before = t.size()
        # workload: truncate, zero chunks, zero and halve single values
        for cut in (4, 2):
            if len(t.W) > cut:
                c = t.copy(); c.W = c.W[:len(c.W) // cut]
                if bad(c): t = c
        size = max(1, len(t.W) // 2)
        while size >= 1 and time.time() < end:
            for i in range(0, len(t.W), size):
                if any(t.W[i:i + size]) and time.time() < end:
                    c = t.copy(); c.W[i:i + size] = [0] * len(c.W[i:i + size])
                    if bad(c): t = c
            size //= 2
        for i in range(len(t.W)):
            while t.W[i] > 1 and time.time() < end:
                c = t.copy(); c.W[i] //= 2
                if bad(c): t = c
                else: break
        while t.W and t.W[-1] == 0: t.W.pop()
        ddmin(lambda x: x.E, setE); ddmin(lambda x: x.F, setF)
        if t.size() == before or time.time() > end: break
    n = b.n; b.close()
    return t, n

def one(binary, args):
    r = subprocess.run([binary] + args, capture_output=True, text=True)
    try: return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception: return {"status": -1, "class": "no output", "message": r.stdout[-300:] + r.stderr[-300:], "hash": ""}

def confirm(prop, binary, scen, seed, cls, tmp):
    """same seed twice in fresh processes, then replay from the recorded trace, minimise, replay again"""
    d1 = os.path.join(tmp, "d1.replay"); d2 = os.path.join(tmp, "d2.replay")
    a = one(binary, ["--scenario", scen, "--mode", "one", "--seed", str(seed), "--dump", d1])
    b = one(binary, ["--scenario", scen, "--mode", "one", "--seed", str(seed), "--dump", d2, "--pin", "1"])
    timing = cls == "hang"
    if a["status"] != 2 or b["status"] != 2 or a["class"] != b["class"] or (a["hash"] != b["hash"] and not timing):
        return None, f"seed {seed} of {scen} is not repeatable: {a['class']}/{a['hash']} against {b['class']}/{b['hash']}"
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    path = os.path.join(V, "replays", f"{prop}-{scen}-{seed}.replay")
    head = [f"# property {prop}", f"# violation {a['class']}: {symbolise(binary, a['message'])}"[:3000]]
    final = None; tried = 0
    if os.path.exists(d1) and not timing:
        t = Trace.load(d1); before = t.size()
        m, tried = minimise(binary, t, a["class"], tmp, 25 if TIER == "quick" else 120)
        if m is not None:
            m.write(path, head)
            r1 = one(binary, ["--replay", path]); r2 = one(binary, ["--replay", path, "--pin", "2"])
            if r1["status"] == 2 and r1["class"] == a["class"] and r1["hash"] == r2["hash"]:
                final = r1; head = [f"# property {prop}", f"# violation {r1['class']}: {symbolise(binary, r1['message'])}"[:3000], f"# minimised from {before} to {m.size()} (workload values, non-zero ones, faults and wake choices, scheduling events) in {tried} replays", f"# expect class={r1['class']} hash={r1['hash']}"]
                m.write(path, head)
    if final is None:
        # no trace (killed outright) or not minimisable: the seed itself is the replay
        with open(path, "w") as f: f.write("\n".join([f"scenario {scen}", f"seed {seed}", "mode seed"] + head + [f"# expect class={a['class']} hash={a['hash']}"]) + "\n")
        r1 = one(binary, ["--replay", path])
        if r1["status"] != 2 or r1["class"] != a["class"] or (r1["hash"] != a["hash"] and not timing): return None, f"replay of seed {seed} of {scen} does not reproduce"
        final = r1
    return dict(path=path, cls=final["class"], message=symbolise(binary, final["message"]), seed=seed, tried=tried), None

def main():
    prop = sys.argv[1]
    if TIER not in ("quick", "thorough"): die("bad VERIF_TIER")
    c = CHECKS[prop]; t0 = time.time()
    # build
    bins = {}
    try:
        for u in dict.fromkeys(s[0] for s in c["scen"]): bins[u] = simbuild.build(UNITS[u], JOBS)
    except RuntimeError as e: die(str(e))
    tb = time.time() - t0
    log(f"{prop}: built {', '.join(bins)} in {tb:.1f}s")
    budget = float(os.environ.get("SIM_SECONDS", c.get("quick", 24) if TIER == "quick" else c.get("thorough", 600)))
    total = sum(s[2] for s in c["scen"])
    known = known_findings(prop)
    tmp = tempfile.mkdtemp(prefix="simcheck.")
    results = []; violations = []; errors = []; known_hit = {}
    det = dict(seeds=0, mismatches=0)
    try:
        for i, (u, scen, share) in enumerate(c["scen"]):
            base = SEED * 1000003 + i * 100000007 + (500000000 if TIER == "thorough" else 0)
            secs = budget * share / total
            out = os.path.join(tmp, "out.json")
            args = [bins[u], "--scenario", scen, "--seed", str(base), "--count", "1000000000", "--jobs", str(JOBS), "--seconds", f"{secs:.2f}", "--out", out]
            for k in known:
                if k["scenario"] in (scen, "*"): args += ["--known", k["match"]]
            # known findings that have a scenario of their own are only run to be reported
            r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if not os.path.exists(out): errors.append(f"{scen}: no result ({r.stdout[-500:]})"); continue
            res = json.load(open(out)); os.unlink(out); res["base"] = base; results.append(res)
            if res["tool_errors"] or res["worker_failure"]: errors.append(f"{scen}: simulator error: {[f for f in res['found'] if f['class'] == 'tool-error'][:1]}")
            found = [f for f in res["found"] if f["class"] != "tool-error"]
            for f in sorted(found, key=lambda f: f["seed"])[:4]:
                v, err = confirm(prop, bins[u], scen, f["seed"], f["class"], tmp)
                if v: violations.append(v); break
                errors.append(err)
            # determinism: a sample of seeds, twice, in separate processes on different cores
            n = 24 if TIER == "quick" else 200
            a = subprocess.run([bins[u], "--scenario", scen, "--mode", "one", "--seed", str(base), "--count", str(n)], capture_output=True, text=True).stdout
            b = subprocess.run([bins[u], "--scenario", scen, "--mode", "one", "--seed", str(base), "--count", str(n), "--pin", "3"], capture_output=True, text=True).stdout
            al = [l for l in a.splitlines() if not l.endswith(" hang")]; bl = [l for l in b.splitlines() if not l.endswith(" hang")]
            det["seeds"] += len(al); mm = sum(1 for x, y in zip(al, bl) if x != y) + abs(len(al) - len(bl)); det["mismatches"] += mm
            if mm and not violations: errors.append(f"{scen}: {mm} of {n} seeds not repeatable")
            if violations: break
        # known findings with scenarios of their own
        for k in known:
            if k["scenario"].startswith("known_"):
                for u in UNITS:
                    if k["scenario"] in UNITS[u].get("known", []):
                        if u not in bins: bins[u] = simbuild.build(UNITS[u], JOBS)
                        out = os.path.join(tmp, "k.json")
                        subprocess.run([bins[u], "--scenario", k["scenario"], "--seed", str(SEED), "--count", "400", "--jobs", str(JOBS), "--seconds", "10", "--known", k["match"], "--out", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                        kr = json.load(open(out)) if os.path.exists(out) else {}
                        known_hit[k["scenario"] + k["match"]] = kr.get("known", 0)
                        if kr.get("violations"):
                            for f in kr["found"][:3]:
                                v, err = confirm(prop, bins[u], k["scenario"], f["seed"], f["class"], tmp)
                                if v: violations.append(v); break
                                errors.append(err)
            else: known_hit[k["scenario"] + k["match"]] = sum(r["known"] for r in results if k["scenario"] in (r["scenario"], "*"))
    except RuntimeError as e: die(str(e))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    runs = sum(r["runs"] for r in results); simw = sum(r["wall"] for r in results) or 1e-9
    fk = {}; pr = {}
    for r in results:
        for k, v in r["fault_kinds"].items():
            d = fk.setdefault(k, dict(fired=0, runs_enabled=0, runs_fired=0)); d["fired"] += v["fired"]; d["runs_enabled"] += v["runs_enabled"]; d["runs_fired"] += v["runs_fired"]
        for k, v in r["probes"].items():
            d = pr.setdefault(k, dict(count=0, runs=0)); d["count"] += v["count"]; d["runs"] += v["runs"]
    samples = []
    for r, sc in zip(results, c["scen"]):
        for j in (0, 1):
            lf = os.path.join(V, "build", f"sample.{prop}.{os.getpid()}")
            x = one(bins[sc[0]], ["--scenario", r["scenario"], "--mode", "one", "--seed", str(r["base"] + j), "--log", lf])
            ev_lines = open(lf, errors="replace").read().splitlines()[:25] if os.path.exists(lf) else []
            if os.path.exists(lf): os.unlink(lf)
            samples.append(dict(scenario=r["scenario"], seed=r["base"] + j, outcome="held" if x.get("status") == 1 else x.get("class"), steps=x.get("steps"), switches=x.get("switches"), faults=x.get("faults"), sim_ns=x.get("sim_ns"), threads=x.get("threads"), events=ev_lines))
    samples = samples[:8]
    wake = fk.pop("wake_choice", None)
    ev = dict(property=prop, tier=TIER, seed=SEED, level="exploration", wall_s=round(wall, 2), violations=len(violations),
        coverage=dict(evaluations=runs, distinct_nontrivial=sum(r["distinct"] for r in results),
            rule="one evaluation is one simulated run: workload, schedule and faults all drawn from one seed; distinct counts runs with different signatures, a signature hashing every context switch (global operation number and thread), every fault and every logged event of the run; a run with no completed workload is not counted",
            samples=samples,
            scenarios=[dict(name=r["scenario"], runs=r["runs"], completed=r["ok"], skipped=r["skips"], skip_reasons=r["skip_reasons"], distinct=r["distinct"], wall_s=r["wall"]) for r in results],
            runs_per_hour=int(runs / simw * 3600), seeds_per_hour=int(runs / simw * 3600),
            simulated_seconds=round(sum(r["sim_ns"] for r in results) / 1e9, 3),
            scheduling_points=sum(r["steps"] for r in results), context_switches=sum(r["switches"] for r in results), chosen_preemptions=sum(r["sched_events"] for r in results),
            threads_simulated=sum(r["threads"] for r in results), faults_injected={k: v for k, v in fk.items() if v["fired"] or v["runs_enabled"]}, rare_conditions_reached=pr,
            determinism=dict(seeds_run_twice_in_separate_processes=det["seeds"], mismatches=det["mismatches"]),
            real_components=c["real"], stubbed_components=c["stub"], build_s=round(tb, 1)),
        assumptions=c.get("assume", []) + ["interleavings are sequentially consistent; weaker orders are covered only by the happens-before race detector", "sampling, not enumeration: a clean batch is evidence, not proof"])
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", f"{prop}.json"), "w") as f: json.dump(ev, f, indent=1)
    for k in known:
        n = known_hit.get(k["scenario"] + k["match"], 0)
        if n or True: log(f"KNOWN-FINDING: property={prop} {k['what']}" + ("" if n else " (not reached in this run)"))
    log(f"{prop}: {runs} runs ({int(runs / simw)}/s), {ev['coverage']['distinct_nontrivial']} distinct, {ev['coverage']['simulated_seconds']} simulated s, faults " + ", ".join(f"{k}={v['fired']}" for k, v in fk.items() if v["fired"]) + f"; {len(violations)} violations; {wall:.0f}s")
    if violations:
        for v in violations:
            log(f"seed {v['seed']}: {v['cls']}: {v['message'][:1500]}")
            log(f"VIOLATION property={prop} replay={v['path']}")
        sys.exit(1)
    if errors: die("; ".join(errors)[:2000])
    if not runs: die("no runs")
    sys.exit(0)

if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except BaseException:
        import traceback; traceback.print_exc(); die("internal error")
