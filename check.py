#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough]   decide one property on /repo's current tree
check.py replay <file>              reproduce a reported violation
check.py setup                      build everything
check.py determinism [PROPERTY..]   same seed, fresh processes, same event hash"""
import json, os, re, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import P, STUB_OS, STUB_HEAP, STUB_TBB

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")


def sim(exe, *a, **kw):
    return subprocess.run([exe] + [str(x) for x in a], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def known_for(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            p = l.rstrip("\n").split("|")
            if p[0] == "known" and p[1] == pid:
                out.append((p[2], p[6]))
    return out


def hashes(exe, pid, seed, n):
    return sim(exe, "hashes", "--prop", pid, "--seed", seed, "--count", n).stdout


def determinism(exe, pid, seed, n):
    """the same seeds in two fresh processes; any difference is an error of the machinery"""
    a = [subprocess.Popen([exe, "hashes", "--prop", pid, "--seed", str(seed), "--count", str(n)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for _ in range(2)]
    o = [p.communicate()[0].splitlines() for p in a]
    if len(o[0]) != n or o[0] != o[1]:
        for x, y in zip(*o):
            if x != y:
                return "%s / %s" % (x, y)
        return "different number of runs"
    return ""


def sample(exe, pid, seed):
    t = sim(exe, "one", "--prop", pid, "--seed", seed).stdout
    m = re.match(r"seed (\d+) scenario (\S+) status (\d+) class \[(.*?)\] hash (\w+) events (\d+) switches (\d+) preempts (\d+) fibers (\d+)", t)
    if not m:
        return None
    kn = dict((a, int(b)) for a, b in re.findall(r"^  knob (\S+)=(-?\d+)", t, re.M))
    fa = dict((a, int(b)) for a, b in re.findall(r"^  fault (\S+)=(\d+)", t, re.M))
    return dict(seed=int(m[1]), scenario=m[2], status={"1": "held", "2": "violation"}.get(m[3], m[3]), event_hash=m[5], steps=int(m[6]), switches=int(m[7]), preemptions=int(m[8]), threads=int(m[9]), knobs=kn, faults=fa)


def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = P[pid]
    count, budget = spec[tier]
    budget = float(os.environ.get("VERIF_BUDGET", budget))
    exes = B.build(spec["bins"])
    tb = time.time() - t0
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    runs, rc, viols, det = [], 0, 0, []
    for b in spec["bins"]:
        exe = exes[b]
        d = determinism(exe, pid, seed * 7919 + 11, 40 if tier == "quick" else 400)
        det.append(dict(binary=b, seeds=40 if tier == "quick" else 400, identical=not d))
        if d:
            print("error: %s is not deterministic: %s" % (b, d), file=sys.stderr)
            sys.exit(3)
        out = os.path.join(B.BUILD, "out_%s_%s_%d.json" % (pid, b, os.getpid()))
        p = sim(exe, "run", "--prop", pid, "--seed", seed, "--count", count, "--time", budget / len(spec["bins"]), "--mintime-budget", 40, "--wall", 120,
                "--workers", os.cpu_count() or 8, "--known", KNOWN, "--replays", rdir, "--out", out)
        sys.stdout.write(p.stdout)
        sys.stderr.write(p.stderr[-4000:])
        if p.returncode not in (0, 1):
            print("error: search ended with status %d" % p.returncode, file=sys.stderr)
            sys.exit(3)
        runs.append((b, exe, json.load(open(out))))
        os.remove(out)
        if p.returncode == 1:
            rc, viols = 1, viols + 1
            break
    known = known_for(pid)
    hits = {}
    for _, _, r in runs:
        for k in r["known"]:
            hits[k["id"]] = hits.get(k["id"], 0) + k["hits"]
    for kid, text in known:
        print("KNOWN-FINDING: property=%s %s (%s; met in %d of the runs)" % (pid, text, kid, hits.get(kid, 0)))
    wall = sum(r["wall_s"] for _, _, r in runs) or 1e-9
    tot = lambda k: sum(r[k] for _, _, r in runs)
    faults, probes = {}, {}
    for _, _, r in runs:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
    scen = [dict(s, binary=b) for b, _, r in runs for s in r["scenarios"]]
    samples = [x for x in (sample(e, pid, seed * 1000000007 + i) for _, e, _ in runs for i in range(3)) if x]
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=tot("runs"),
            distinct_nontrivial=tot("distinct_interleavings"),
            rule="one evaluation is one simulated execution drawn from one seed (workload, knobs, schedule, faults); it is non-trivial if at least one preemption happened or one fault fired, and distinct if its sequence of (thread, step, next thread) decisions and fault firings together with its knobs was not seen before (hash)" + (". " + spec["rule"] if spec["rule"] else ""),
            samples=samples,
            runs_with_preemption=tot("runs_with_preemption"),
            distinct_outcomes=tot("distinct_outcomes"),
            runs_per_hour=int(tot("runs") * 3600 / wall), seeds_per_hour=int(tot("runs") * 3600 / wall),
            simulated_seconds=sum(s["sim_ns"] for s in scen) / 1e9,
            simulated_steps=sum(s["steps"] for s in scen),
            faults_injected=faults, rare_conditions_reached=probes, scenarios=scen,
            determinism_check=det,
            real_components=spec["real"], stubbed_components=[STUB_TBB, STUB_OS, STUB_HEAP] + spec["stubs"],
            known_findings=[dict(id=k, text=t, hits=hits.get(k, 0)) for k, t in known],
            violation=[r["violation"] for _, _, r in runs if r["violation"]],
            build_s=round(tb, 1)),
        assumptions=spec["assume"], wall_s=round(time.time() - t0, 2), violations=viols)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s %s: %d runs, %d distinct interleavings, %d steps, %.0f s search, %.0f s build: %s" % (pid, tier, tot("runs"), tot("distinct_interleavings"), ev["coverage"]["simulated_steps"], wall, tb, "VIOLATED" if rc else "held"))
    return rc


def replay(f):
    m = re.search(r"^property (\S+)", open(f).read(), re.M)
    for b, exe in B.build(P[m[1]]["bins"]).items():
        if m[1] not in sim(exe, "list").stdout:
            continue
        p = sim(exe, "replay", "--file", f)
        if "unknown scenario" in p.stderr:
            continue
        print(p.stdout + p.stderr)
        if p.returncode == 0:
            print("VIOLATION property=%s replay=%s" % (m[1], f))
            return 1
    print("not reproduced")
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == "setup":
            B.build(list(B.BINS), verbose=True)
            return 0
        if a[0] == "replay":
            return replay(a[1])
        if a[0] == "determinism":
            bad = 0
            for pid in a[1:] or sorted(P):
                for b, exe in B.build(P[pid]["bins"]).items():
                    d = determinism(exe, pid, 1, 2000)
                    print(pid, b, "identical" if not d else "DIFFERENT " + d)
                    bad |= bool(d)
            return 3 if bad else 0
        tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
        return run(a[0], tier)
    except RuntimeError as e:
        print("error: build failed\n%s" % e, file=sys.stderr)
        return 3


if __name__ == "__main__":
    sys.exit(main())
