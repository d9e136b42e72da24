#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by seeded simulation (see DESIGN.md).

Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough).
Exit 0: held on everything explored.  Exit 1: violation, with its replay file.
Anything else: the check itself failed.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B  # noqa: E402
import props as P  # noqa: E402

T0 = time.time()
NW = 8


def say(*a):
    print(*a, flush=True)


def die(code, msg):
    say("CHECK-ERROR:", msg)
    sys.exit(code)


def run(exe, *args, timeout=600):
    return subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                          timeout=timeout, errors="replace")


def jlines(txt):
    out = []
    for l in txt.splitlines():
        if l.startswith("{"):
            try:
                out.append(json.loads(l))
            except ValueError:
                pass
    return out


def replay(exe, f, rec=None):
    r = run(exe, "replay", f, *([rec] if rec else []))
    j = jlines(r.stdout)
    if not j:
        die(4, "replay of %s gave no result: %s %s" % (f, r.stdout[-500:], r.stderr[-500:]))
    return j[0]


def symbolise(exe, pcs):
    pcs = [p for p in pcs if p]
    if not pcs:
        return ""
    r = subprocess.run(["addr2line", "-Cfpe", exe] + [hex(p - 1) for p in pcs], stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, text=True)
    return "; ".join(l.strip() for l in r.stdout.splitlines())


# ---- minimisation --------------------------------------------------------------
class Plan:
    def __init__(self, f):
        self.head, self.ops, self.sched = [], [], []
        for l in open(f):
            if l.startswith("op "):
                self.ops.append(l)
            elif l.startswith("sched "):
                self.sched.append(l)
            elif l.startswith("schedule"):
                pass
            else:
                self.head.append(l)

    def write(self, f, sched=True):
        with open(f, "w") as o:
            o.writelines(self.head)
            o.writelines(self.ops)
            if sched:
                o.write("schedule\n")
                o.writelines(self.sched)


def minimise(exe, f, cls, tmp, budget):
    """ddmin over operations (searching a few schedules for each candidate), then
    over the scheduling decisions; keeps the violation class."""
    end = time.time() + budget
    best = f
    n = 0
    last = None

    def try_ops(plan, cand, head=None):
        nonlocal n
        n += 1
        q = Plan(best)
        q.ops = cand
        q.head = head or q.head
        a, b = os.path.join(tmp, "m%d.plan" % n), os.path.join(tmp, "m%d.out" % n)
        q.write(a, sched=False)
        r = run(exe, "research", a, 12 if cls != "deadlock" else 30, cls, b)
        j = jlines(r.stdout)
        return b if j and j[0].get("violated") and os.path.exists(b) else None

    changed = True
    while changed and time.time() < end:
        changed = False
        p = Plan(best)
        size = max(1, len(p.ops) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(p.ops) and time.time() < end:
                # definitions are referred to by position: never drop one that is not last
                cut = p.ops[i:i + size]
                if any(l.startswith("op -1 ") for l in cut):
                    i += 1
                    continue
                cand = p.ops[:i] + p.ops[i + size:]
                r = try_ops(p, cand) if cand else None
                if r:
                    best, changed = r, True
                    p = Plan(best)
                else:
                    i += size
            size //= 2
        # simplify: no allocation failure where it is not needed
        p = Plan(best)
        for i, l in enumerate(p.ops):
            if time.time() >= end:
                break
            if " fail=0 " not in l:
                cand = list(Plan(best).ops)
                cand[i] = re.sub(r" fail=\d+ ", " fail=0 ", l)
                r = try_ops(p, cand)
                if r:
                    best, changed = r, True
            best_ops = Plan(best).ops
            for m in ("", " rep=2"): # nor repetitions: at first none, then fewer of them
                while i < len(best_ops) and time.time() < end:
                    t = re.search(r" rep=(\d+)", best_ops[i])
                    if not t or int(t.group(1)) <= 2 and m:
                        break
                    cand = list(best_ops)
                    cand[i] = cand[i].replace(t.group(0), " rep=%d" % (int(t.group(1)) // 2) if m else "")
                    r = try_ops(p, cand)
                    if not r:
                        break
                    best, changed = r, True
                    best_ops = Plan(best).ops
        for i, l in enumerate(Plan(best).head):
            t = re.match(r"param (worker_)?cycles (\d+)", l)
            while t and int(t.group(2)) > 0 and time.time() < end:
                q = Plan(best)
                q.head[i] = l = l.replace(t.group(2), str(int(t.group(2)) // 2))
                r = try_ops(q, q.ops, q.head)
                if not r:
                    break
                best, changed = r, True
                t = re.match(r"param (worker_)?cycles (\d+)", l)
    # schedule
    def try_sched(cand):
        nonlocal n
        n += 1
        q = Plan(best)
        q.sched = cand
        a, b = os.path.join(tmp, "s%d.plan" % n), os.path.join(tmp, "s%d.out" % n)
        q.write(a)
        j = replay(exe, a, b)
        return b if j["violated"] and j["cls"] == cls else None

    p = Plan(best)
    size = max(1, len(p.sched) // 2)
    while size >= 1 and time.time() < end and p.sched:
        i = 0
        while i < len(p.sched) and time.time() < end:
            cand = p.sched[:i] + p.sched[i + size:]
            r = try_sched(cand)
            if r and len(Plan(r).sched) < len(p.sched):
                best = r
                p = Plan(best)
            else:
                i += size
        size //= 2
    return best


# ---- known findings --------------------------------------------------------------
def findings(prop):
    out = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2), re.S), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    spec = P.CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    group = spec["group"]
    exe = B.build(group)
    if exe is None:
        die(3, "build of group %s from %s failed" % (group, B.REPO))
    t_build = time.time() - T0
    say("property %s tier %s seed %d group %s build %.1fs" % (prop, tier, seed, group, t_build))
    tmp = tempfile.mkdtemp(prefix="kep3sim-")
    try:
        return decide(prop, spec, seed, tier, exe, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, spec, seed, tier, exe, tmp):
    secs = float(os.environ.get("KEP3SIM_SECS", spec.get("thorough_s", 600) if tier == "thorough" else spec.get("quick_s", 75)))
    maxruns = int(os.environ.get("KEP3SIM_RUNS", "100000000"))
    # search
    t_search = time.time()
    ps = []
    for w in range(NW):
        ps.append(subprocess.Popen([exe, "run", prop, str(seed), str(w), str(NW), str(maxruns // NW + 1), str(secs), tmp, "6"],
                                   stdout=open(os.path.join(tmp, "out%d" % w), "w"),
                                   stderr=open(os.path.join(tmp, "err%d" % w), "w")))
    for w, p in enumerate(ps):
        try:
            rc = p.wait(timeout=secs + 300)
        except subprocess.TimeoutExpired:
            for q in ps:
                q.kill()
            die(4, "worker %d did not finish" % w)
        if rc != 0:
            die(4, "worker %d ended with %d: %s" % (w, rc, open(os.path.join(tmp, "err%d" % w)).read()[-800:]))
    t_search = time.time() - t_search
    viols, stats = [], []
    for w in range(NW):
        for j in jlines(open(os.path.join(tmp, "out%d" % w), errors="replace").read()):
            if "violation" in j:
                viols.append(j["violation"])
            if "stats" in j:
                stats.append(j["stats"])
    if len(stats) != NW:
        die(4, "missing worker statistics")
    # determinism: the same runs again, in other processes and another order
    nd = 12 if tier == "quick" else 60
    a = {}
    procs = [subprocess.Popen([exe, "hash", prop, str(seed), str(o), str(4), str(nd // 4)], stdout=subprocess.PIPE, text=True)
             for o in range(4)]
    for p in procs:
        out, _ = p.communicate(timeout=600)
        for l in out.splitlines():
            k, rest = l.split(" ", 1)
            a[int(k)] = rest
    b = {}
    out = run(exe, "hash", prop, seed, 0, 1, nd).stdout
    for l in out.splitlines():
        k, rest = l.split(" ", 1)
        b[int(k)] = rest
    if a != b or len(a) < nd:
        diff = [k for k in set(a) | set(b) if a.get(k) != b.get(k)]
        die(5, "nondeterministic execution of runs %s (%s / %s)" % (diff[:5], [a.get(k) for k in diff[:2]], [b.get(k) for k in diff[:2]]))

    # and the plan read back from a file must be the same execution
    for k in sorted(b)[:nd * 2 // 3]:
        pf = os.path.join(tmp, "rt.plan")
        open(pf, "w").write(run(exe, "plan", prop, seed, k).stdout)
        j = replay(exe, pf)
        if j["hash"] != b[k].split()[0]:
            die(5, "run %d differs when replayed from its file (%s / %s)" % (k, b[k], j["hash"]))

    known = findings(prop)
    known_hit = {}
    reported = []
    seen = set()
    viols.sort(key=lambda v: v["run"])
    rdir = os.path.join(VERIF, "replays")
    skipped_err = [v for v in viols if v["cls"] == "sim-error"]
    if skipped_err:
        die(6, "simulator error: %s" % skipped_err[0]["msg"])
    for v in viols:
        where = symbolise(exe, v["pcs"])
        text = "%s: %s %s" % (v["cls"], v["msg"], where)
        k = [i for i, (rx, _) in enumerate(known) if rx.search(text)]
        if k:
            known_hit[k[0]] = known_hit.get(k[0], 0) + 1
            continue
        if v["cls"] in seen or len(reported) >= 3:
            continue
        # gate: replays of the recorded schedule in fresh processes must agree
        r1, r2 = replay(exe, v["file"]), replay(exe, v["file"])
        if not (r1["violated"] and r2["violated"] and r1["cls"] == r2["cls"] == v["cls"] and (v["cls"] == "hang" or r1["hash"] == r2["hash"] == v["hash"])):
            die(5, "violation of run %d does not replay: %s / %s / %s" % (v["run"], text[:300], r1, r2))
        seen.add(v["cls"])
        if v["cls"] == "hang":
            best, m1, m2 = v["file"], r1, r2
        else:
            best = minimise(exe, v["file"], v["cls"], tmp, 45 if tier == "quick" else 180)
            m1, m2 = replay(exe, best), replay(exe, best)
        if not (m1["violated"] and m1["cls"] == m2["cls"] == v["cls"] and (v["cls"] == "hang" or m1["hash"] == m2["hash"])):
            best, m1 = v["file"], r1
        os.makedirs(rdir, exist_ok=True)
        dst = os.path.join(rdir, "%s-seed%d-run%d.plan" % (prop, seed, v["run"]))
        with open(dst, "w") as o:
            o.write(open(best).read())
            o.write("# %s\n" % ("%s: %s %s" % (m1["cls"], m1["msg"], symbolise(exe, m1["pcs"]))).replace("\n", "\n# "))
        m3 = replay(exe, dst)
        if not (m3["violated"] and m3["cls"] == v["cls"]):
            die(5, "replay file %s does not reproduce" % dst)
        reported.append((dst, m1, symbolise(exe, m1["pcs"])))
    inter = set()
    for w in range(NW):
        f = os.path.join(tmp, "inter_%d" % w)
        if os.path.exists(f):
            d = open(f, "rb").read()
            inter.update(d[i:i + 8] for i in range(0, len(d), 8))
    evidence(prop, spec, seed, tier, stats, t_search, nd, reported, known, known_hit, len(viols), len(inter), exe)
    for i, (rx, what) in enumerate(known):
        say("KNOWN-FINDING: property=%s %s" % (prop, what))
    for dst, m, where in reported:
        say("%s: %s" % (m["cls"], m["msg"]))
        if where:
            say("  at", where)
        say("VIOLATION property=%s replay=%s" % (prop, dst))
    say("done: %d runs in %.0fs, %d violations" % (sum(s["runs"] for s in stats), t_search, len(reported)))
    return 1 if reported else 0


def add(dicts):
    o = {}
    for d in dicts:
        for k, v in d.items():
            o[k] = o.get(k, 0) + v
    return o


def evidence(prop, spec, seed, tier, stats, t_search, nd, reported, known, known_hit, nviol, ninter, exe):
    tot = {k: sum(s[k] for s in stats) for k in ("runs", "nontrivial", "steps", "switches", "allocs", "refs", "sim_us")}
    faults = add(s["faults"] for s in stats)
    counters = add(s["counters"] for s in stats)
    for k in ("torn_files", "crashes", "eio", "enospc", "short_io", "rejected_calls", "udp_throws", "clock_backward_steps"):
        if counters.get(k):
            faults[k] = counters[k]
    ops = add(s["ops"] for s in stats)
    samples = []
    for s in stats:
        samples += s["samples"]
    probes_zero = sorted(k for k in spec.get("probes", []) if not (counters.get(k) or faults.get(k) or ops.get(k)
                                                                or add(s["sync"] for s in stats).get(k)))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": ninter,
            "rule": "One evaluation is one simulated execution, made from (VERIF_SEED, property, run number). It is non-trivial if at "
                    "least one preemption, stall, failed allocation, storage fault, crash, clock jump or rejected call happened inside the "
                    "code under test; distinct ones are counted by a hash over every scheduling step, switch and observed result.",
            "samples": samples[:3],
            "runs_per_hour": round(tot["runs"] / max(t_search, 1e-9) * 3600),
            "seeds": "VERIF_SEED=%d, run numbers 0..%d" % (seed, tot["runs"] - 1),
            "simulated_time": {"instrumented_steps": tot["steps"], "simulated_clock_us": tot["sim_us"],
                               "note": "kep3 has no timers; time advances in scheduling steps (memory accesses, lock and allocation "
                                       "operations, simulated system calls). The simulated wall clock matters only to epoch::now."},
            "context_switches": tot["switches"],
            "max_threads": max(s["max_threads"] for s in stats),
            "max_steps_in_one_run": max(s["max_run_steps"] for s in stats),
            "heap_blocks_reused_at_the_same_address": sum(s["heap_reused"] for s in stats),
            "faults_injected": faults,
            "scheduling_points": add(s["step_kinds"] for s in stats),
            "synchronisation": add(s["sync"] for s in stats),
            "operations": ops,
            "oracle": {k: v for k, v in counters.items() if v},
            "reference_processes": tot["refs"],
            "determinism_selftest": {"runs_repeated_in_other_processes": nd, "differences": 0},
            "probes_at_zero": probes_zero,
            "components": spec["components"],
            "known_findings_met": {known[i][1]: n for i, n in known_hit.items()},
        },
        "assumptions": P.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": len(reported),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmpf = os.path.join(d, prop + ".json.tmp")
    json.dump(ev, open(tmpf, "w"), indent=1)
    os.replace(tmpf, os.path.join(d, prop + ".json"))
    if probes_zero:
        say("note: probes at zero:", ", ".join(probes_zero))


if __name__ == "__main__":
    sys.exit(main())
