"""Runs one property: finite enumeration, then generated cases, on several worker processes.

A check module in checks/ provides
  PID, RULE            property id; how cases are made and what makes one non-trivial
  check(case)          -> iterable of labels; the label "!" marks the case non-trivial.
                          raises sut.Violation when the property does not hold for the case
  enum(tier)           optional: iterable of cases, a finite space explored completely
  strategy(tier)       optional: Hypothesis strategy of cases
  EXAMPLES             {"quick": n, "thorough": n}: generated cases in total
  shrink(case)         optional: iterable of smaller cases (enumerated failures only)
  known(print)         optional: probes the listed known findings
Cases are plain JSON values. Every random choice is a Hypothesis draw seeded from VERIF_SEED."""
import collections, hashlib, importlib, json, multiprocessing as mp, os, resource, sys, time, traceback
from . import sut

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOFT_WALL = {"quick": 300.0, "thorough": 3000.0}      # stop making new cases; never a verdict
SHRINK_GRACE = 40.0
KEEP = 400                                            # cases of history kept for state-dependent failures
CHUNK = 400                                           # generated cases per Hypothesis run


def seed_env():
    s = os.environ.get("VERIF_SEED", "1")
    try:
        return int(s)
    except ValueError:
        return int(hashlib.sha256(s.encode()).hexdigest()[:12], 16)


def dumps(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


class Stop(BaseException):
    """Ends a Hypothesis run at once (not an Exception, so it is not taken for a failing case)."""


class Worker:
    def __init__(self, mod, tier, seed, idx, n, stop, t0):
        self.mod, self.tier, self.seed, self.idx, self.n, self.stop, self.t0 = mod, tier, seed, idx, n, stop, t0
        self.evals = self.enumerated = self.generated = 0
        self.digests, self.labels, self.samples = set(), collections.Counter(), {}
        self.history = collections.deque(maxlen=KEEP)
        self.fail = None
        self.truncated = False

    def over(self):
        if self.stop.is_set():
            return True
        if time.monotonic() - self.t0 > SOFT_WALL[self.tier]:
            self.truncated = True
            return True
        return False

    def one(self, case):
        """Check one case, counting it. Violations propagate."""
        self.evals += 1
        labels = set(self.mod.check(case))
        if "!" in labels:
            d = hashlib.blake2b(dumps(case).encode(), digest_size=8).digest()
            if d not in self.digests:
                self.digests.add(d)
                if len(self.samples) < 60:
                    key = ",".join(sorted(labels))
                    if key not in self.samples:
                        self.samples[key] = case
        self.labels.update(labels)
        self.history.append(case)

    def failed(self, case, x, how):
        if self.fail is None or len(dumps(case)) <= len(dumps(self.fail["case"])):
            hist = list(self.history) if self.fail is None else self.fail["history"]
            self.fail = dict(case=case, message=str(x)[:2000], how=how, history=hist)

    def run(self):
        if hasattr(self.mod, "enum"):
            self.run_enum()
        if self.fail is None and hasattr(self.mod, "strategy"):
            self.run_generated()
        if self.fail is not None:
            self.stop.set()

    def run_enum(self):
        for i, case in enumerate(self.mod.enum(self.tier)):
            if i % self.n != self.idx:
                continue
            if self.enumerated % 64 == 0 and self.over():
                return
            self.enumerated += 1
            try:
                self.one(case)
            except sut.Violation as x:
                self.failed(case, x, "enumerated")
                self.stop.set()
                self.reduce()
                return

    def reduce(self):
        """Greedy reduction of an enumerated failure."""
        shrink = getattr(self.mod, "shrink", None)
        t0, progress = time.monotonic(), True
        while shrink and progress and time.monotonic() - t0 < SHRINK_GRACE:
            progress = False
            for c in shrink(self.fail["case"]):
                try:
                    self.mod.check(c)
                except sut.Violation as x:
                    self.failed(c, x, "enumerated, reduced")
                    progress = True
                    break
                if time.monotonic() - t0 > SHRINK_GRACE:
                    break

    def run_generated(self):
        import hypothesis
        from hypothesis import settings, HealthCheck, Phase
        total = self.mod.EXAMPLES[self.tier]
        share = total // self.n + (1 if self.idx < total % self.n else 0)
        hypothesis.configuration.set_hypothesis_home_dir("/tmp/hypothesis-home-unused")
        chunk = 0
        while share > 0 and not self.over():
            k = min(share, CHUNK)
            share -= k
            state = dict(first=None)

            def body(case):
                now = time.monotonic()
                if state["first"] is None:
                    if self.generated % 16 == 0 and self.over():
                        raise Stop()
                elif now - state["first"] > SHRINK_GRACE:
                    raise Stop()
                self.generated += 1
                try:
                    self.one(case)
                except sut.Violation as x:
                    if state["first"] is None:
                        state["first"] = now
                        self.stop.set()
                    self.failed(case, x, "generated, shrunk")
                    raise
            f = hypothesis.given(self.mod.strategy(self.tier))(body)
            f = settings(max_examples=k, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                         suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                         print_blob=False)(f)
            f = hypothesis.seed((self.seed * 1000003 + self.idx) * 100003 + chunk)(f)
            chunk += 1
            try:
                f()
            except (sut.Violation, Stop):
                pass
            except BaseException:
                if self.fail is None:
                    raise                       # the harness is wrong, not the code under test
            if self.fail is not None:
                return


def _worker(modname, tier, seed, idx, n, stop, t0, q):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.stdout.flush()
        w = Worker(importlib.import_module(modname), tier, seed, idx, n, stop, t0)
        w.run()
        q.put(("done", idx, dict(evals=w.evals, enumerated=w.enumerated, generated=w.generated, digests=w.digests,
                                 labels=dict(w.labels), samples=w.samples, fail=w.fail, truncated=w.truncated)))
    except BaseException:
        stop.set()
        q.put(("error", idx, traceback.format_exc()))


def _isolated(fn, *args):
    """Run fn in a forked process with fresh state of the code under test; returns its result."""
    ctx = mp.get_context("fork")
    r, w = ctx.Pipe(False)

    def run():
        try:
            w.send(("ok", fn(*args)))
        except BaseException:
            w.send(("error", traceback.format_exc()))
    p = ctx.Process(target=run)
    p.start()
    got = r.recv() if r.poll(300) else ("error", "no answer in 300 s")
    p.kill()
    p.join()
    if got[0] == "error":
        raise RuntimeError(got[1])
    return got[1]


def violates(mod, case, history=()):
    """The violation message of case (after the cases in history), or None."""
    for h in history:
        try:
            mod.check(h)
        except sut.Violation:
            pass
    try:
        mod.check(case)
    except sut.Violation as x:
        return str(x)
    return None


def replay(mod, path):
    d = json.load(open(path))
    msg = violates(mod, d["case"], d.get("history", ()))
    if msg is None:
        print("no violation: property=%s replay=%s" % (mod.PID, path))
        return 0
    print(msg)
    print("VIOLATION property=%s replay=%s" % (mod.PID, path))
    return 1


def main(pid, tier, args):
    mod = importlib.import_module("checks." + pid.lower())
    if args[:1] == ["--replay"]:
        return replay(mod, args[1])
    seed, t0 = seed_env(), time.monotonic()
    n = int(os.environ.get("VERIF_WORKERS", "8"))
    ctx = mp.get_context("fork")
    stop, q = ctx.Event(), ctx.Queue()
    ps = [ctx.Process(target=_worker, args=(mod.__name__, tier, seed, i, n, stop, t0, q)) for i in range(n)]
    for p in ps:
        p.start()
    got, errors = {}, []
    hard = SOFT_WALL[tier] + 300
    while len(got) + len(errors) < n:
        try:
            kind, i, x = q.get(timeout=5)
            if kind == "done":
                got[i] = x
            else:
                errors.append(x)
        except Exception:
            if time.monotonic() - t0 > hard:
                errors += ["a worker gave no answer"] * (n - len(got) - len(errors))
            elif not any(p.is_alive() for p in ps):
                time.sleep(1)
                if q.empty():
                    errors += ["a worker died without an answer"] * (n - len(got) - len(errors))
    for p in ps:
        p.kill()
        p.join()
    digests, labels, samples = set(), collections.Counter(), {}
    for i in sorted(got):
        digests |= got[i]["digests"]
        labels.update(got[i]["labels"])
        for k, v in got[i]["samples"].items():
            samples.setdefault(k, v)
    fails = sorted((g["fail"] for g in got.values() if g["fail"]), key=lambda f: (len(dumps(f["case"])), dumps(f["case"])))
    known = list(mod.known()) if hasattr(mod, "known") and not fails else []
    known_bad = [k for k in known if k.get("violation")]
    tot = lambda k: sum(g[k] for g in got.values())
    pick = sorted(samples.items(), key=lambda kv: (-len(kv[0]), kv[0]))[:12]
    cov = dict(evaluations=tot("evals"), distinct_nontrivial=len(digests), rule=mod.RULE, samples=[v for _, v in pick],
               enumerated=tot("enumerated"), generated=tot("generated"), workers=n,
               distribution=dict(sorted(((k, v) for k, v in labels.items() if k != "!"), key=lambda kv: -kv[1])[:80]),
               stopped_early=any(g["truncated"] for g in got.values()))
    if hasattr(mod, "extra_coverage"):
        cov.update(mod.extra_coverage())
    ev = dict(property=mod.PID, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.monotonic() - t0, 2), violations=len(fails) + len(known_bad))
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", mod.PID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    rc = 0
    for k in known:
        if k.get("present"):
            print("KNOWN-FINDING: property=%s %s" % (mod.PID, k["what"]))
    if fails or known_bad:
        rel = "evidence/replays/%s.json" % mod.PID
        f = fails[0] if fails else dict(case=known_bad[0]["case"], message=known_bad[0]["violation"], how="known-finding probe", history=[])
        rep = dict(property=mod.PID, case=f["case"], message=f["message"], how=f["how"], seed=seed, tier=tier)
        try:
            if _isolated(violates, mod, f["case"]) is None:
                rep["history"] = f["history"]
                rep["note"] = "needs the earlier cases in history: the code under test keeps state between calls"
        except RuntimeError as x:
            rep["note"] = "could not be re-run in isolation: " + str(x)[-300:]
        with open(os.path.join(VERIF, rel), "w") as out:
            json.dump(rep, out, indent=1, ensure_ascii=True)
        print("%s: %s" % (mod.PID, f["message"][:3000]))
        print("case: " + dumps(f["case"])[:1500])
        print("VIOLATION property=%s replay=%s" % (mod.PID, rel))
        rc = 1
    elif errors:
        print("\n".join(sorted(set(errors)))[-4000:], file=sys.stderr)
        rc = 2
    print("%s %s: %d cases (%d enumerated, %d generated), %d distinct non-trivial, %.1f s%s" % (
        mod.PID, tier, cov["evaluations"], cov["enumerated"], cov["generated"], len(digests), time.monotonic() - t0,
        ", stopped early" if cov["stopped_early"] else ""))
    return rc
