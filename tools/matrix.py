"""Runs checks against patched copies of /repo: matrix.py [--all] [--own] [ids...]; results in /tmp/matrix.json.
Each job uses its own copy of /verif's machinery and VERIF_WORKERS=1, so that eight run side by side."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = "/tmp/matrix.json"


def job(arg):
    patch, prop, label = arg
    work = tempfile.mkdtemp(prefix="matrix.")
    try:
        repo, ver = os.path.join(work, "repo"), os.path.join(work, "verif")
        os.makedirs(repo)
        subprocess.run("git -C /repo archive HEAD | tar x -C " + repo, shell=True, check=True)
        if patch:
            subprocess.run(["patch", "-s", "-p1", "--binary", "-i", patch], cwd=repo, check=True)
        shutil.copytree(V, ver, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "__pycache__"))
        t = time.time()
        p = subprocess.run(["python3-vt", "run.py", prop, "quick"], cwd=ver, env=dict(os.environ, F15_REPO=repo, VERIF_WORKERS="1", VERIF_TIER="quick"), capture_output=True, text=True, timeout=1500)
        lines = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        return dict(bug=label, prop=prop, rc=p.returncode, hit=bool(lines) and p.returncode == 1, out=(p.stdout + p.stderr)[-300:] if p.returncode not in (0, 1) else "", sec=round(time.time() - t, 1))
    except subprocess.TimeoutExpired:
        return dict(bug=label, prop=prop, rc=-1, hit=False, out="timeout", sec=1500)
    finally:
        shutil.rmtree(work)


def main(args):
    every = "--all" in args
    ids = [a for a in args if not a.startswith("--")]
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    jobs = []
    for b in sorted(os.listdir(os.path.join(V, "seeded"))):
        if ids and b not in ids:
            continue
        own = json.load(open(os.path.join(V, "seeded", b, "meta.json")))["property"]
        for p in props if every else [own]:
            jobs.append((os.path.join(V, "seeded", b, "patch.diff"), p, b))
    res = []
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(job, jobs):
            res.append(r)
            if not every or r["rc"] not in (0, 1):
                print(r["bug"], r["prop"], "caught" if r["hit"] else "MISSED", r["rc"], r["sec"], r["out"][-200:], flush=True)
    json.dump(res, open(OUT, "w"))
    if every:
        for b in sorted({r["bug"] for r in res}):
            print(b, " ".join(sorted(r["prop"] for r in res if r["bug"] == b and r["hit"])), flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
