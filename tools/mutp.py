#!/usr/bin/env python3
"""mutp.py [-q0|-q1] FILE...: as mut.py, in parallel and with the facts of each edit kept for the next run.
-a: every registered check on every edit; -q0: print only results other than rc=0 (refactorings), -q1: other than rc=1 (bugs)"""
import hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
N = 7
quiet = None
args = sys.argv[1:]
every = None
if args[0] == "-a":
    args.pop(0)
    import json
    every = ",".join(c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"])
if args[0].startswith("-q"):
    quiet = int(args.pop(0)[2:])
files = [a for a in args if not a.isdigit()]
only = [a for a in args if a.isdigit()]
head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
jobs = [[] for _ in range(N)]


def key_of(repo):
    """the key the check would compute for the facts of this tree"""
    return subprocess.check_output([sys.executable, "-c", "import sys; sys.path.insert(0, '/verif/analysis'); import facts; print(facts._key(), end='')"],
                                   text=True, env=dict(os.environ, VERIF_REPO=repo))


for fl in files:
    for i, m in enumerate(eval(open(fl).read())):
        if only and str(i) not in only:
            continue
        h = hashlib.sha256(repr((head, m[1:])).encode()).hexdigest()[:20]
        jobs[int(h, 16) % N].append((os.path.basename(fl), i, m, h))


def worker(k):
    x = os.environ.get("MUTW", "")
    W, B = "/tmp/mutwt%s%d" % (x, k), "/tmp/mutbuild%s%d" % (x, k)
    if not os.path.isdir(W):
        subprocess.check_call(["git", "clone", "-q", "/repo", W])
    subprocess.check_call("git -C %s fetch -q origin && git -C %s reset -q --hard origin/HEAD" % (W, W), shell=True)
    if not os.path.isdir(B) and os.path.isdir("/verif/.build"):
        shutil.copytree("/verif/.build", B, symlinks=True)
    out = []
    for fl, i, m, h in jobs[k]:
        c, hunks = m[0], m[1] if isinstance(m[1], list) else [m[1:]]
        b, missing = hunks[0][2], False
        for f, old, new in hunks:
            p = os.path.join(W, f if "/" in f and not f.startswith("src") else "minter/" + f)
            s = open(p).read()
            if old not in s:
                missing = old
                break
            open(p, "w").write(s.replace(old, new, 1))
        if missing:
            subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
            out.append((fl, i, "-", -1, "pattern not found: " + missing[:80]))
            continue
        cache = "/tmp/mutcache/" + h
        cached = os.path.exists(cache + "/facts/KEY") and open(cache + "/facts/KEY").read() == key_of(W)
        for cc in (every or c).split(","):
            env = dict(os.environ, VERIF_REPO=W, VERIF_BUILD=cache if cached else B, VERIF_EVIDENCE="/tmp/mutev%s%d" % (x, k))
            r = subprocess.run([sys.executable, "/verif/analysis/check.py", cc], env=env, capture_output=True, text=True)
            lines = r.stdout.splitlines()
            first = next((l for l in lines[1:] if l.strip()), "")
            log = os.path.join(cache if cached else B, "facts/rc")
            bad = "" if open(log).read().strip() == "0" else " DOES NOT COMPILE"
            out.append((fl, i, cc, r.returncode, b.strip().replace("\n", " ")[:50] + " | " + bad + first.strip()[:260] + (r.stderr[-200:] if r.returncode not in (0, 1) else "")))
            if not cached:
                os.makedirs(cache, exist_ok=True)
                shutil.rmtree(cache + "/facts", ignore_errors=True)
                shutil.copytree(B + "/facts", cache + "/facts")
        subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    return out


with ThreadPoolExecutor(N) as ex:
    res = sorted(x for r in ex.map(worker, range(N)) for x in r)
for fl, i, cc, rc, msg in res:
    if quiet is None or rc != quiet:
        print("%s %d %s rc=%d %s" % (fl, i, cc, rc, msg))
print("%d results, rc=0: %d, rc=1: %d" % (len(res), sum(x[3] == 0 for x in res), sum(x[3] == 1 for x in res)))
