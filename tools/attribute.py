"""For every mutant: the fields of a corpus on which it behaves differently, and which properties' checks object to those fields.

attribute.py corpus CORPUS.pkl
attribute.py run MUTANTS.json CORPUS.pkl OUT.json
attribute.py one CORPUS.pkl         (internal; F15_REPO is the mutant)"""
import importlib, itertools, json, os, pickle, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
sys.dont_write_bytecode = True
PROPS = ["C03"] + ["C%02d" % i for i in range(4, 20)] + ["C22", "C23", "C25"]


def corpus(path):
    from hypothesis import HealthCheck, given, seed, settings
    from lib import gen, spaces, sut
    fields = []
    for p in PROPS:
        mod = importlib.import_module("checks." + p.lower())
        every = [c["field"] for c in mod.enum("quick") if "field" in c and "ws" not in c]
        random.Random(1).shuffle(every)
        fields += every[:3000]
        if p == "C03":
            continue

        @seed(7)
        @settings(max_examples=500, database=None, deadline=None, suppress_health_check=list(HealthCheck))
        @given(mod.strategy("quick"))
        def go(c):
            if "field" in c and "ws" not in c:
                fields.append(c["field"])
        go()
    fields = sorted({f for f in fields if len(f) < 2000}, key=lambda f: (len(f), f))
    pickle.dump([(f, repr(sut.parse(f).plain()), ) for f in fields], open(path, "wb"))
    print(len(fields))


def one(path):
    from lib import sut
    data = pickle.load(open(path, "rb"))
    diff = []
    for f, want in data:
        try:
            got = repr(sut.parse(f).plain())
        except sut.Violation as x:
            got = str(x)
        if got != want:
            diff.append(f)
    hits = {}
    pick = diff[:40] + random.Random(3).sample(diff[40:], min(110, len(diff) - 40)) if len(diff) > 40 else diff
    for p in PROPS:
        mod = importlib.import_module("checks." + p.lower())
        for f in pick:
            try:
                if p == "C03":
                    s = f.replace("/", " / ").split()
                    if not s:
                        continue
                    mod.check({"strings": s})
                else:
                    mod.check({"field": f})
            except sut.Violation as x:
                hits.setdefault(p, [0, f, str(x)[:150]])[0] += 1
            except Exception as x:
                hits.setdefault("!" + p, [0, f, repr(x)[:150]])[0] += 1
    print(json.dumps(dict(n=len(diff), picked=len(pick), hits=hits, first=diff[:3])))


def main(a):
    if a[0] == "corpus":
        return corpus(a[1])
    if a[0] == "one":
        return one(a[1])
    import mutate
    ms = json.load(open(a[1]))
    res = []

    def go(m):
        work, repo = mutate.copy(m)
        try:
            p = subprocess.run(["python3-vt", os.path.join(V, "tools", "attribute.py"), "one", a[2]], env=dict(os.environ, F15_REPO=repo), capture_output=True, text=True, timeout=900)
            try:
                return dict(m, **json.loads(p.stdout.splitlines()[-1]))
            except Exception:
                return dict(m, n=-1, out=(p.stdout + p.stderr)[-300:])
        except subprocess.TimeoutExpired:
            return dict(m, n=-2)
        finally:
            shutil.rmtree(work)
    with ThreadPoolExecutor(8) as ex:
        for i, r in enumerate(ex.map(go, ms)):
            res.append(r)
            if i % 50 == 0:
                json.dump(res, open(a[3], "w"))
    json.dump(res, open(a[3], "w"))
    print(len(res), "same", sum(r["n"] == 0 for r in res), "broken", sum(r["n"] < 0 for r in res))


if __name__ == "__main__":
    main(sys.argv[1:])
