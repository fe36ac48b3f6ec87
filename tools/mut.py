#!/usr/bin/env python3
"""mut.py FILE: a list of single edits [(check, file, old, new), ...]; reports whether the check notices each one.
(quick feedback while rules are written; runs in a scratch copy)"""
import os, subprocess, sys
W = "/tmp/mutwt"
if not os.path.isdir(W):
    subprocess.check_call(["git", "clone", "-q", "/repo", W])
subprocess.check_call("git -C %s fetch -q origin && git -C %s reset -q --hard origin/HEAD" % (W, W), shell=True)
muts = eval(open(sys.argv[1]).read())
only = sys.argv[2:]
env = dict(os.environ, VERIF_REPO=W, VERIF_BUILD="/tmp/mutbuild", VERIF_EVIDENCE="/tmp/mutev")
for i, (c, f, a, b) in enumerate(muts):
    if only and str(i) not in only:
        continue
    p = os.path.join(W, f if "/" in f and not f.startswith("src") else "minter/" + f)
    s = open(p).read()
    if s.count(a) < 1:
        print("%d %s: pattern not found (%d)" % (i, c, s.count(a)))
        continue
    open(p, "w").write(s.replace(a, b, 1))
    for cc in c.split(","):
        r = subprocess.run([sys.executable, "/verif/analysis/check.py", cc], env=env, capture_output=True, text=True)
        lines = r.stdout.splitlines()
        tainted = [l for l in lines if "not type" in l]
        first = next((l for l in lines[1:] if l.strip()), "")
        print("%d %s rc=%d %s | %s" % (i, cc, r.returncode, b.strip().replace("\n", " ")[:50], first.strip()[:230]), flush=True)
    open(p, "w").write(s)
