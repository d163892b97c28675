"""Helper to make and try planted bugs (not used by any check).

add(id, prop, edits, demo, needs, breaks, cflags="", ldflags="", run="./demo")
builds a patched scratch copy of /repo, runs the stable tests there, runs the
demonstration on both trees, writes /verif/seeded/<id> and runs the check of
the property (and of `also`) against the copy."""
import json, os, re, shutil, subprocess, sys
SW = "/tmp/sw"
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
SH = r'''#!/bin/bash
# Demonstration: run in the repository; exit 0 if the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
r=$(pwd)
t=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf -- "${t:?}"' EXIT
src=
for f in "$r"/src/*.c; do
  case ${f##*/} in io_posix.c|io_win.c|urkel.c) ;; *) src="$src $f" ;; esac
done
inc="-I$r/include -I$r/src"
mkdir "$t/o" && cd "$t/o" || exit 2
gcc -std=gnu90 -g -w -O1 -DURKEL_BUILD -DURKEL_DEBUG -DURKEL_TLS=__thread \
    -D_POSIX_C_SOURCE=200112 %(cflags)s $inc -c $src || exit 2
%(cli)sgcc -std=gnu11 -O1 -g -w %(cflags)s $inc "$d/demo.c" "$t"/o/*.o %(ldflags)s \
    -lpthread -o "$t/demo" || exit 2
mkdir "$t/w" && cd "$t/w" || exit 2
timeout 120 %(run)s
'''
CLI = '''gcc -std=gnu90 -g -w -O1 -DURKEL_TLS=__thread -D_POSIX_C_SOURCE=200112 $inc \\
    "$r/src/urkel.c" "$t"/o/*.o -lpthread -o "$t/urkel" || exit 2
'''
H = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <urkel.h>
#define OK(x) do { if (!(x)) { \
  printf("line %d: %s\n", __LINE__, #x); fflush(stdout); _exit(1); } } while (0)
#ifdef URKEL_VERIFY
size_t urkel_verify_max_file_size = 0x7ffff000;
size_t urkel_verify_max_open_files = 32;
size_t urkel_verify_write_buffer = 64 << 20;
size_t urkel_verify_read_buffer = 1 << 20;
#endif
/* a key that is zero but for some bits */
static inline unsigned char *key_(unsigned char *k, int n, ...) {
  __builtin_va_list ap; int i;
  memset(k, 0, 32); __builtin_va_start(ap, n);
  for (i = 0; i < n; i++) { int b = __builtin_va_arg(ap, int); k[b >> 3] ^= 0x80 >> (b & 7); }
  __builtin_va_end(ap); return k;
}
'''
def sh(cmd, cwd=None, env=None, t=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def blame(patch):
    """Whether the patch changes a line of the original repository."""
    f = None; n = 0; orig = 0; tot = 0
    for l in patch.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and f and not l.startswith("---"):
            b = subprocess.check_output("git -C /repo blame -s -L%d,%d HEAD -- %s" % (n, n, f), shell=True).decode()
            tot += 1; orig += subprocess.call("git -C /repo merge-base --is-ancestor %s 40f8b2a" % b.split()[0].lstrip("^"), shell=True) == 0
            n += 1
        elif l.startswith(" "): n += 1
    print("original lines changed: %d of %d" % (orig, tot))
    return orig > 0

def add(id, prop, edits, demo, needs, breaks, cflags="", ldflags="", run='"$t/demo"', cli=False,
        files={}, also=(), check=os.environ.get("NOCHECK") is None):
    c = os.path.join(SW, id)
    if os.path.isdir(c): shutil.rmtree(c)
    subprocess.check_call("mkdir -p %s && git -C /repo archive HEAD | tar x -C %s" % (c, c), shell=True)
    subprocess.check_call("cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % c, shell=True)
    for f, old, new in edits:
        p = os.path.join(c, f); s = open(p).read()
        if s.count(old) != 1: print(id, "EDIT does not match once:", s.count(old), old); return
        open(p, "w").write(s.replace(old, new))
    _, patch = sh("git diff", c)
    if not blame(patch): print(id, "changes no original line"); return
    vp = os.path.join(SW, "vp-" + id); shutil.rmtree(vp, ignore_errors=True); shutil.copytree("/opt/vp", vp, ignore=lambda d, n: [x for x in n if x not in ("build.sh", "test.sh", "mkcases.py", "results.py", "BASELINE.json")])
    for x in ("build.sh", "test.sh"):
        p = os.path.join(vp, x); s = open(p).read().replace("/opt/vp/build.sh", vp + "/build.sh").replace("/repo", c); open(p, "w").write(s)
    rc, o = sh("bash %s/test.sh %s/out.json" % (vp, vp))
    try: res = json.load(open(vp + "/out.json"))
    except Exception: print(id, "TEST run failed", o[-2000:]); return
    if res["failed"] or len(res["passed"]) < 18:
        print(id, "TESTS FAIL", res["failed"], len(res["passed"]), o[-1500:] if not res["passed"] else ""); return
    d = os.path.join(OUT, id)
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.sh", "w").write(SH % dict(cflags=cflags, ldflags=ldflags, run=run, cli=CLI if cli else ""))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.h", "w").write(H)
    open(d + "/demo.c", "w").write('#include "demo.h"\n' + demo.lstrip("\n"))
    for n, text in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        open(os.path.join(d, n), "w").write(text)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    ra, oa = sh("bash %s/demo.sh" % d, "/repo", t=300)
    rb, ob = sh("bash %s/demo.sh" % d, c, t=300)
    print(id, "demo clean=%d bug=%d" % (ra, rb), (oa[-600:] if ra else ""), ob[-300:].strip())
    if ra != 0 or rb in (0, 2): print(id, "BAD DEMO"); return
    shutil.rmtree(vp, ignore_errors=True)
    if check:
        for q in (prop,) + tuple(also): trycheck(id, q)

def trycheck(id, q, thorough=False):
    import time
    t0 = time.time()
    env = dict(os.environ, MC_REPO=os.path.join(SW, id))
    rc, o = sh("python3 check.py %s %s" % (q, "--thorough" if thorough else ""), "/verif", env, 1200)
    v = [l for l in o.splitlines() if "VIOLATION" in l]
    print(id, q, "CAUGHT" if rc == 1 and v else "MISSED rc=%d" % rc, "%.0f s" % (time.time() - t0), v[:1] or o[-300:], flush=True)
