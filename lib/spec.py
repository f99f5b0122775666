"""Run specifications (replay files) as Python objects, and a reducer for them."""
import concurrent.futures, copy, json, os, random, subprocess, tempfile, time


class Spec:
    def __init__(self):
        self.head = []; self.P = {}; self.S = {}; self.sched = []; self.rates = {}
        self.jobs = []; self.d = []; self.f = []; self.expect = []

    @staticmethod
    def parse(text):
        s = Spec()
        for line in text.split("\n"):
            if not line or line[0] == "#":
                continue
            k, _, rest = line.partition(" ")
            if k in ("harness", "prop"):
                s.head.append((k, rest))
            elif k == "P":
                n, v = rest.split(); s.P[n] = int(v)
            elif k == "S":
                n, v = rest.split(); s.S[n] = v
            elif k == "sched":
                s.sched = rest.split()
            elif k == "rate":
                n, v = rest.split(); s.rates[int(n)] = v
            elif k == "job":
                s.jobs.append({"p": {}, "s": {}, "w": []})
            elif k == "p":
                n, v = rest.split(); s.jobs[-1]["p"][n] = int(v)
            elif k == "s":
                n, v = rest.split(); s.jobs[-1]["s"][n] = v
            elif k == "w":
                s.jobs[-1]["w"].append(rest)
            elif k == "d":
                s.d.append(rest)
            elif k == "f":
                s.f.append(rest)
            elif k == "expect":
                s.expect.append(rest)
            else:
                raise ValueError("bad line in replay file: " + line)
        return s

    def text(self):
        o = ["%s %s" % x for x in self.head]
        o += ["P %s %d" % x for x in sorted(self.P.items())]
        o += ["S %s %s" % x for x in sorted(self.S.items())]
        o.append("sched " + " ".join(self.sched))
        o += ["rate %d %s" % x for x in sorted(self.rates.items())]
        for j in self.jobs:
            o.append("job")
            o += ["p %s %d" % x for x in sorted(j["p"].items())]
            o += ["s %s %s" % x for x in sorted(j["s"].items())]
            o += ["w " + x for x in j["w"]]
        o += ["d " + x for x in self.d] + ["f " + x for x in self.f] + ["expect " + x for x in self.expect]
        return "\n".join(o) + "\n"

    def copy(self):
        return copy.deepcopy(self)

    @property
    def replay(self):
        return self.sched[0] == "1"

    def expected(self, key):
        for e in self.expect:
            if e.startswith(key + " "):
                return e[len(key) + 1:]
        return None

    def size(self):
        return sum(len(j["w"]) for j in self.jobs)


class Runner:
    """Executes specifications, each in a fresh simulator process."""

    def __init__(self, exe, libdir, scratch, cpu=20):
        self.exe, self.libdir, self.scratch, self.cpu = exe, libdir, scratch, cpu
        self.n = 0
        self.count = 0

    def tmp(self, suffix):
        self.n += 1
        return os.path.join(self.scratch, "m%d.%s" % (self.n, suffix))

    def run_text(self, text, out=False):
        p = self.tmp("spec")
        with open(p, "w") as f:
            f.write(text)
        o = p + ".out"
        self.count += 1
        cmd = [self.exe, "replay", "--file", p, "--libdir", self.libdir, "--cpu", str(self.cpu)]
        if out:
            cmd += ["--out", o]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        os.unlink(p)
        try:
            res = json.loads(r.stdout.strip().split("\n")[-1])
        except Exception:
            res = {"status": 3, "class": "harness-error", "msg": "no output", "hash": "0", "events": 0}
        if out and os.path.exists(o):
            with open(o) as f:
                res["replay"] = f.read()
            os.unlink(o)
        return res


def _drop_nodes(w, keep):
    """Keeps the given node lines of a pre-order tree, re-parenting what was below a dropped one."""
    out, st, nd = [], [], []          # st: old depths of open ancestors; nd: new depth below each
    for i, l in enumerate(w):
        if not l.startswith("n "):
            if i in keep:
                out.append(l)
            continue
        t = l.split()
        d = int(t[1])
        while st and st[-1] >= d:
            st.pop(); nd.pop()
        base = nd[-1] if nd else 0
        if i in keep:
            t[1] = str(base)
            out.append(" ".join(t)); st.append(d); nd.append(base + 1)
        else:
            st.append(d); nd.append(base)
    return out


class Minimiser:
    def __init__(self, runner, cls, budget, seed=1, jobs=8, log=lambda *_: None):
        self.r, self.cls, self.deadline, self.log = runner, cls, time.time() + budget, log
        self.rng = random.Random(seed)
        self.ex = concurrent.futures.ThreadPoolExecutor(jobs)
        self.jobs = jobs

    def left(self):
        return self.deadline - time.time()

    def _try(self, spec):
        if self.left() <= 0:
            return None
        r = self.r.run_text(spec.text())
        return spec if r["status"] == 2 and r["class"] == self.cls else None

    def any_seed(self, spec, tries=8):
        """The candidate under its own and a few other schedule seeds; first that still fails."""
        cands = []
        for i in range(tries):
            c = spec.copy()
            if i and not c.replay:
                c.sched[1] = str(self.rng.getrandbits(63))
            cands.append(c)
            if c.replay:
                break
        for r in self.ex.map(self._try, cands):
            if r is not None:
                return r
        return None

    def best_of(self, cands):
        for r in self.ex.map(self._try, cands):
            if r is not None:
                return r
        return None

    # ---- stage A: workload and configuration, schedule still drawn at random
    def shrink_workload(self, s):
        progress = True
        while progress and self.left() > 0:
            progress = False
            for edit in self._config_candidates(s):
                cand = edit(s)
                if self.left() <= 0:
                    break
                if cand is None:
                    continue
                got = self.any_seed(cand)
                if got is not None:
                    s = got; progress = True
            for ji in range(len(s.jobs)):
                n = len(s.jobs[ji]["w"])
                chunk = max(1, n // 2)
                while chunk >= 1 and self.left() > 0 and n:
                    i, changed = 0, False
                    while i < len(s.jobs[ji]["w"]) and self.left() > 0:
                        w = s.jobs[ji]["w"]
                        keep = set(range(len(w))) - set(range(i, i + chunk))
                        if not keep:
                            i += chunk
                            continue
                        if any(l.startswith("n 0 ") for l in w):
                            keep.add(next(k for k, l in enumerate(w) if l.startswith("n 0 ")))   # the root stays
                        if len(keep) == len(w):
                            i += chunk
                            continue
                        c = s.copy()
                        c.jobs[ji]["w"] = _drop_nodes(w, keep)
                        got = self.any_seed(c, 6)
                        bw = c.jobs[ji]["p"].get("bank_words", 1)
                        for nb in (max(1, bw * len(keep) // len(w)), max(1, bw - (len(w) - len(keep)))):
                            if got is None and nb < bw and self.left() > 0:
                                c.jobs[ji]["p"]["bank_words"] = nb
                                got = self.any_seed(c, 4)
                        if got is not None:
                            s = got; changed = progress = True
                        else:
                            i += chunk
                    if chunk == 1 and not changed:
                        break
                    chunk = max(1, chunk // 2) if chunk > 1 else (1 if changed else 0)
        return s

    def _config_candidates(self, s):
        """Edits, each applied to the then-current specification (None: does not apply any more)."""
        def deljob(i):
            def f(s):
                if len(s.jobs) < 2 or i >= len(s.jobs):
                    return None
                c = s.copy(); del c.jobs[i]; return c
            return f

        def delrate(k):
            def f(s):
                if k not in s.rates:
                    return None
                c = s.copy(); del c.rates[k]; return c
            return f

        def setp(k):
            def f(s):
                if not s.P.get(k):
                    return None
                c = s.copy(); c.P[k] = 0; return c
            return f

        def setj(i, k, fn):
            def f(s):
                if i >= len(s.jobs) or k not in s.jobs[i]["p"]:
                    return None
                v = s.jobs[i]["p"][k]; nv = fn(v)
                if nv >= v:
                    return None
                c = s.copy(); c.jobs[i]["p"][k] = nv
                if k == "banks" and c.jobs[i]["p"].get("workers", 1) > nv:
                    c.jobs[i]["p"]["workers"] = max(1, nv)
                return c
            return f
        out = [deljob(i) for i in range(len(s.jobs) - 1, -1, -1)] + [delrate(k) for k in list(s.rates)] + [setp(k) for k in ("topo", "same_file", "nohandler", "stop_early", "defaults", "optimize", "threads")]
        def halve(k, lo):
            def f(s):
                v = s.P.get(k, 0)
                if v <= lo:
                    return None
                c = s.copy(); c.P[k] = max(lo, v // 2); return c
            return f
        out += [halve("gsize", 1), halve("gsize", 1), halve("gsize", 1)]
        for i in range(len(s.jobs)):
            for k, lo in (("mut", 0), ("pad", 0), ("tail", 0), ("adrop", 0), ("anull", 0), ("dsize", 1), ("xfer", 0), ("counter", 0), ("capture", 0), ("order", 0), ("dorder", 0), ("workers", 1), ("banks", 1), ("delay", 0), ("kill_delay", 0), ("bank_words", 1), ("raise", 0), ("missing", 0), ("restart", 0), ("rewrite", 0), ("same", 0), ("pause", 0), ("vmode", 0)):
                out += [setj(i, k, lambda v, lo=lo: lo), setj(i, k, lambda v, lo=lo: max(lo, (lo + v) // 2)), setj(i, k, lambda v, lo=lo: max(lo, v - 1))]
        return out

    # ---- stage B: recorded decisions and faults
    def ddmin(self, s, field):
        items = list(getattr(s, field))
        if not items:
            return s
        c = s.copy(); setattr(c, field, [])
        if self._try(c):
            return c
        n = 2
        while len(items) >= 2 and self.left() > 0:
            size = max(1, len(items) // n)
            parts = [items[i:i + size] for i in range(0, len(items), size)]
            cands = []
            for i in range(len(parts)):
                c = s.copy(); setattr(c, field, [x for j, p in enumerate(parts) if j != i for x in p]); cands.append(c)
            got = None
            for k in range(0, len(cands), self.jobs):
                got = self.best_of(cands[k:k + self.jobs])
                if got or self.left() <= 0:
                    break
            if got is not None:
                s = got; items = list(getattr(s, field)); n = max(n - 1, 2)
            else:
                if size == 1:
                    break
                n = min(n * 2, len(items))
        return s

    def minimise(self, spec):
        """spec: random-mode specification that fails. Returns replay text with expectations, or None."""
        a = self.shrink_workload(spec) if not spec.replay else spec
        r = self.r.run_text(a.text(), out=True)
        if r["status"] != 2 or r["class"] != self.cls or "replay" not in r:
            return None
        b = Spec.parse(r["replay"]); b.expect = []
        self.deadline = max(self.deadline, time.time() + 10)
        c = self._try(b)
        if c is not None:
            c = self.ddmin(c, "d")
            c = self.ddmin(c, "f")
            c = self.ddmin(c, "d")
        else:
            c = a                     # recorded schedule too long: the seed itself is the replay
        r = self.r.run_text(c.text(), out=False)
        if r["status"] != 2 or r["class"] != self.cls:
            return None
        c.expect = ["class " + r["class"], "hash " + r["hash"], "msg " + r["msg"]]
        return c
