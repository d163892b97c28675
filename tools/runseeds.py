#!/usr/bin/env python3
"""Runs the checks against every planted bug, in scratch copies.
   runseeds.py [--also PROP,..] [id...]     results go to tools/seed_results.txt"""
import json, os, re, shutil, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = os.path.join(H, "tools", "seed_results.txt")
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(H, "seeded")))
for i in ids:
    d = os.path.join(H, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    c = "/tmp/rs-" + i
    shutil.rmtree(c, ignore_errors=True)
    os.makedirs(c)
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git apply %s/patch.diff" % (c, c, d), shell=True)
    t0 = time.time()
    p = subprocess.run(["python3", "check.py", prop], cwd=H, env=dict(os.environ, MC_REPO=c), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    m = re.search(r"^part (\S+) \[(\w+)\]", p.stdout, re.M)
    if p.returncode == 1 and "VIOLATION property=" + prop in p.stdout:
        r = [m.group(1) if m else "?", "%.0f s" % (time.time() - t0)]
    else:
        r = ["MISSED (exit %d)" % p.returncode, "%.0f s" % (time.time() - t0)]
    print(i, prop, *r, flush=True)
    old = {}
    if os.path.exists(RES):
        old = dict(l.rstrip("\n").split("\t", 1) for l in open(RES))
    old[i] = "\t".join(r)
    open(RES, "w").write("".join("%s\t%s\n" % kv for kv in sorted(old.items())))
    shutil.rmtree(c)
subprocess.call([sys.executable, os.path.join(H, "tools", "seedtable.py")])
