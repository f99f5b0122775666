#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--seed N] [--runs N] [--time S] [--replay FILE]

Decides one property by seeded simulation of the code in /repo.  See DESIGN.md."""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build, plans
from spec import Spec, Runner, Minimiser

KNOWN = os.path.join(HERE, "known-findings.txt")


def known_findings(prop):
    """finding: property=<id> match=/<regex over 'class msg'>/ <description>"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def die(msg):
    print("ERROR " + msg)
    sys.stdout.flush()
    sys.exit(2)


def batch(exe, libdir, prop, seed, frm, n, jobs, tlimit, tier, out, maxviol):
    cmd = [exe, "batch", "--prop", prop, "--seed", str(seed), "--from", str(frm), "--n", str(n), "--jobs", str(jobs), "--time", "%.1f" % tlimit,
           "--tier", tier, "--out", out, "--maxviol", str(maxviol), "--libdir", libdir]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        return json.loads(r.stdout.strip().split("\n")[-1])
    except Exception:
        die("simulator batch gave no summary (exit %d): %s %s" % (r.returncode, r.stdout[-500:], r.stderr[-1500:]))


def replay_file(path):
    text = open(path).read()
    s = Spec.parse(text)
    head = dict(s.head)
    try:
        exe = build.build(plans.HARNESS[head["harness"]])
    except build.BuildError as e:
        die("build failed:\n%s" % e)
    scratch = tempfile.mkdtemp(prefix="centaurus-replay.")
    try:
        r = Runner(exe, build.OUT, scratch, 120).run_text(text)
    finally:
        shutil.rmtree(scratch)
    print(json.dumps(r))
    if r["status"] == 2:
        exp = s.expected("hash")
        if exp:
            print("replay %s: %s" % ("identical to the recorded execution" if exp == r["hash"] else "DIFFERS from the recorded execution", r["hash"]))
        print("VIOLATION property=%s replay=%s" % (head["prop"], path))
        return 1
    return 0 if r["status"] == 1 else 2


def report_violation(prop, tier, seed, idx, raw_path, exe, libdir, scratch, cfg, jobs, harness):
    """Reproduce, minimise, write the replay file."""
    rn = Runner(exe, libdir, scratch, 60)
    raw = open(raw_path).read()
    s = Spec.parse(raw)
    cls, hsh, msg = s.expected("class"), s.expected("hash"), s.expected("msg")
    print("violation at run index %d (seed %d): %s: %s" % (idx, seed, cls, msg)); sys.stdout.flush()
    a, b = rn.run_text(raw), rn.run_text(raw)
    exact = all(x["status"] == 2 and x["class"] == cls and x["hash"] == hsh for x in (a, b))
    same = [x for x in (a, b) if x["status"] == 2]
    note = "reproduced twice, identical hash" if exact else "reproduced %d of 2 times, not bit for bit" % len(same)
    tries = 0
    while not same and tries < 20:
        tries += 1
        x = rn.run_text(raw)
        if x["status"] == 2:
            same.append(x)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%d-%d.replay" % (prop, seed, idx))
    final = s
    if same and exact:
        g = subprocess.run([exe, "gen", "--prop", prop, "--seed", str(seed), "--index", str(idx), "--tier", tier, "--libdir", libdir], stdout=subprocess.PIPE, text=True)
        m = None
        try:
            spec0 = Spec.parse(g.stdout)
            chk = rn.run_text(spec0.text())
            if chk["status"] == 2 and chk["class"] == cls:
                m = Minimiser(rn, cls, cfg["minimise"], jobs=jobs).minimise(spec0)
            if m is None:
                m = Minimiser(rn, cls, cfg["minimise"], jobs=jobs).minimise(s)
        except Exception as e:          # a failed minimisation leaves the full recording
            print("minimisation failed: %r" % e)
        if m is not None:
            c = [rn.run_text(m.text()) for _ in range(2)]
            if all(x["status"] == 2 and x["hash"] == m.expected("hash") for x in c):
                print("minimised: workload %d -> %d lines, decisions %d -> %d, faults %d -> %d (%d simulator runs)"
                      % (s.size(), m.size(), len(s.d), len(m.d), len(s.f), len(m.f), rn.count))
                final = m
    with open(path, "w") as f:
        f.write("# property %s, seed %d, run %d, tier %s; %s\n# re-run: python3 check.py %s --replay %s\n" % (prop, seed, idx, tier, note, prop, os.path.relpath(path, HERE)) + final.text())
    print("%s: %s" % (final.expected("class"), final.expected("msg")))
    return path, bool(same), {"class": final.expected("class"), "message": final.expected("msg"), "index": idx, "replay": path, "reproduction": note}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--time", type=float)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay_file(a.replay))
    t0 = time.time()
    prop, tier = a.prop, a.tier
    parts = plans.PLANS[prop]
    scratch = tempfile.mkdtemp(prefix="centaurus-check.")
    try:
        rc = run(a, prop, tier, parts, scratch, t0)
    finally:
        shutil.rmtree(scratch)
    sys.stdout.flush()
    sys.exit(rc)


def run(a, prop, tier, parts, scratch, t0):
    findings = known_findings(prop)
    shown = set()
    viol = []
    ev_parts = []
    wall_sim = 0.0
    for part in parts:
        try:
            exe = build.build(plans.HARNESS[part["harness"]])
        except build.BuildError as e:
            die("build failed:\n%s" % e)
        libdir = build.OUT
        cfg = dict(part[tier])
        n = a.runs or cfg["runs"]
        tl = a.time or cfg["time"]
        frm, known_hits, sums = 0, 0, []
        tb = time.time()
        hit = None
        while True:
            out = os.path.join(scratch, "%s.%d" % (part["harness"], len(sums)))
            sm = batch(exe, libdir, prop, a.seed, frm, n - frm, a.jobs, max(1.0, tl - (time.time() - tb)), tier, out, 1)
            sums.append(sm)
            errs = sorted(glob.glob(out + ".err.*"))
            vs = sorted(glob.glob(out + ".viol.*"), key=lambda p: int(p.rsplit(".", 1)[1]))
            for p in vs:
                s = Spec.parse(open(p).read())
                line = "%s %s" % (s.expected("class"), s.expected("msg"))
                k = [d for rx, d in findings if rx.search(line)]
                if k:
                    known_hits += 1
                    if k[0] not in shown:
                        shown.add(k[0]); print("KNOWN-FINDING: property=%s %s" % (prop, k[0]))
                else:
                    hit = p
                    break
            if hit:
                break
            if errs:
                die("simulator error: %s" % open(errs[0]).read()[-3000:])
            if not vs or time.time() - tb >= tl:
                break
            frm = int(vs[-1].rsplit(".", 1)[1]) + 1
            if frm >= n:
                break
        tot = merge(sums)
        tot["known_finding_runs"] = known_hits
        wall_sim += tot["wall"]
        det = None
        if hit:
            idx = int(hit.rsplit(".", 1)[1])
            path, ok, info = report_violation(prop, tier, a.seed, idx, hit, exe, libdir, scratch, cfg, a.jobs, part["harness"])
            if not ok:
                die("run %d reported %s but never did again: simulator error" % (idx, info["class"]))
            viol.append((path, info))
        else:
            k = min(n, cfg.get("recheck", 200))
            o2 = os.path.join(scratch, "det")
            h = [batch(exe, libdir, prop, a.seed, 0, k, j, 120, tier, o2, 1 << 30) for j in (a.jobs, 3)]
            det = {"runs_executed_twice": min(x["runs"] for x in h), "identical": h[0]["batchhash"] == h[1]["batchhash"]}
            if not det["identical"]:
                print("WARNING: %d runs executed twice were not identical" % k)
        ev_parts.append((part, cfg, tot, det, exe, libdir))
        if viol:
            break
    evidence(a, prop, tier, ev_parts, viol, t0, scratch)
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][0]))
        return 1
    tot = merge([p[2] for p in ev_parts])
    print("OK property=%s: %d simulated runs (%d distinct executions), %d scheduling points, %d faults injected, %.1f s"
          % (prop, tot["runs"], tot["distinct"], tot["events"], sum(v[0] for v in tot["faults"].values()) + tot["kills"], time.time() - t0))
    return 0


def merge(sums):
    t = {}
    for s in sums:
        for k, v in s.items():
            if k in ("batchhash",):
                continue
            if k == "faults":
                f = t.setdefault("faults", {})
                for n, (x, y) in v.items():
                    q = f.get(n, [0, 0]); f[n] = [q[0] + x, q[1] + y]
            elif k == "probes":
                p = t.setdefault("probes", [0] * len(v))
                t["probes"] = [x + y for x, y in zip(p, v)]
            elif k in ("max_events",):
                t[k] = max(t.get(k, 0), v)
            else:
                t[k] = t.get(k, 0) + v
    return t


def evidence(a, prop, tier, ev, viol, t0, scratch):
    tot = merge([e[2] for e in ev])
    samples = []
    for part, cfg, t, det, exe, libdir in ev:
        for idx in (0, 1):
            g = subprocess.run([exe, "gen", "--prop", prop, "--seed", str(a.seed), "--index", str(idx), "--tier", tier, "--libdir", libdir], stdout=subprocess.PIPE, text=True)
            r = subprocess.run([exe, "one", "--prop", prop, "--seed", str(a.seed), "--index", str(idx), "--tier", tier, "--libdir", libdir], stdout=subprocess.PIPE, text=True)
            samples.append({"harness": part["harness"], "index": idx, "outcome": (json.loads(r.stdout) if r.stdout.startswith("{") else r.stdout[:200]), "specification": g.stdout[:3000]})
    hours = max(tot["wall"], 1e-6) / 3600
    names = plans.PROBES
    faults = {n: {"injected": x, "runs": y} for n, (x, y) in tot["faults"].items() if x}
    if tot["kills"]:
        faults["process-kill"] = {"injected": tot["kills"]}
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": tot["distinct_nontrivial"],
        "rule": plans.RULE[prop],
        "samples": samples,
        "distinct_executions": tot["distinct"],
        "runs_per_hour": int(tot["runs"] / hours),
        "seeds_per_hour": int(tot["runs"] / hours),
        "simulated_time_s": round(tot["sim_ns"] / 1e9, 6),
        "scheduling_points": tot["events"],
        "longest_run_scheduling_points": tot["max_events"],
        "context_switches": tot["switches"],
        "simulated_processes": tot["procs"], "simulated_threads": tot["threads"], "simulated_system_calls": tot["syscalls"],
        "faults_injected": faults,
        "conditions_reached_in_runs": {names[i]: v for i, v in enumerate(tot["probes"]) if v and i in names},
        "distinct_shared_states": tot["states"],
        "state_measure": "incremental hash over the shared 8-byte words touched by atomic operations, semaphore values and thread states, counted in a 2^24-bit linear-counting bitmap (a lower bound)",
        "determinism": [dict(harness=e[0]["harness"], **e[3]) for e in ev if e[3]],
        "components": [plans.COMPONENTS[e[0]["harness"]] for e in ev],
        "harnesses": [{"harness": e[0]["harness"], "runs": e[2]["runs"], "wall_s": e[2]["wall"]} for e in ev],
    }
    if viol:
        cov["violation"] = [v[1] for v in viol]
    doc = {"property": prop, "tier": tier, "seed": a.seed, "level": "exploration", "coverage": cov, "assumptions": plans.ASSUMPTIONS,
           "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    main()
