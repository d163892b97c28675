#!/usr/bin/env python3
"""Builds the library and the explorer from the working trees and runs the
parts of one property.  See DESIGN.md.

  check.py ID [--thorough] [--part NAME] [--keep] [--replay FILE]
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
MC = os.path.join(HERE, "mc")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")
FL = {"asan": 1, "msan": 2, "tsan": 4, "plain": 8, "afn": 16, "sync": 32, "stock": 64, "wasi": 128, "emsc": 256, "win": 512, "wint": 1024}
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "msan": ["-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
    "plain": [],
    "afn": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
            "-finstrument-functions"],
    "sync": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
             "-DURKEL_FSYNC"],
    "stock": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    # The WebAssembly ports: no mappings, threads or locks.
    "wasi": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
             "-D__wasi__", "-I" + os.path.join(MC, "wasm")],
    "win": ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
            "-D_WIN32"],
    "wint": ["-fsanitize=thread", "-fno-omit-frame-pointer", "-D_WIN32"],
    "emsc": ["-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
             "-D__EMSCRIPTEN__", "-I" + os.path.join(MC, "wasm")],
}
LINK = {
    "asan": ["-fsanitize=address,undefined"],
    "msan": ["-fsanitize=memory"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
    "afn": ["-fsanitize=address,undefined"],
    "sync": ["-fsanitize=address,undefined"],
    "stock": ["-fsanitize=address,undefined"],
    "wasi": ["-fsanitize=address,undefined"],
    "win": ["-fsanitize=address,undefined"],
    "wint": ["-fsanitize=thread"],
    "emsc": ["-fsanitize=memory"],
}
DEF = {"asan": ["-DMC_ASAN"], "msan": ["-DMC_MSAN"], "tsan": ["-DMC_TSAN"], "plain": [],
       "afn": ["-DMC_ASAN"], "sync": ["-DMC_ASAN", "-DMC_FSYNC"], "stock": ["-DMC_ASAN"],
       "wasi": ["-DMC_ASAN", "-DMC_WASI"], "emsc": ["-DMC_MSAN", "-DMC_EMSC"],
       "win": ["-DMC_ASAN", "-DMC_WIN"], "wint": ["-DMC_TSAN", "-DMC_WIN"]}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout)
    return r.stdout


def sources():
    """The library's and the tool's sources, as the build file names them."""
    text = open(os.path.join(REPO, "CMakeLists.txt")).read()
    out = []
    for var in ("urkel_sources", "bin_sources"):
        m = re.search(r"set\(%s\s+([^)]*)\)" % var, text)
        out.append([s for s in m.group(1).split() if s.endswith(".c")] if m else [])
    if not out[0]:
        out[0] = ["src/" + f for f in sorted(os.listdir(os.path.join(REPO, "src")))
                  if f.endswith(".c") and f not in ("urkel.c", "io_posix.c", "io_win.c")]
    if not out[1]:
        out[1] = ["src/urkel.c"]
    return out


class Builder:
    def __init__(self, dir):
        self.dir = dir
        self.done = {}
        self.pool = ThreadPoolExecutor(os.cpu_count() or 4)

    def compile(self, src, obj, flags):
        run(["clang", "-c", src, "-o", obj] + flags)
        return obj

    def build(self, fl):
        if fl in self.done:
            return self.done[fl]
        d = os.path.join(self.dir, fl)
        os.makedirs(d)
        lib, cli = sources()
        libflags = ["-std=gnu90", "-O1", "-g", "-DURKEL_BUILD", "-DURKEL_DEBUG", "-DURKEL_TLS=__thread",
                    "-D_POSIX_C_SOURCE=200112"]
        if fl in ("win", "wint"): # (<io.h> is the system's, not the library's)
            libflags.append("-I" + os.path.join(MC, "win"))
        libflags += ["-I" + os.path.join(REPO, "include"),
                    "-I" + os.path.join(REPO, "src"), "-w"] + SAN[fl]
        if fl != "stock": # the shipped limits
            libflags.append("-DURKEL_VERIFY")
        cliflags = [f for f in libflags if f != "-DURKEL_BUILD"] + ["-Dmain=urkel_cli_main"]
        hflags = ["-std=gnu11", "-O2", "-g", "-Wall", "-Wextra", "-Wno-unused-parameter", "-Wno-missing-field-initializers",
                  "-I" + os.path.join(REPO, "include"), "-I" + MC] + DEF[fl]
        if fl in ("msan", "emsc"):
            hflags += SAN["msan"]
        jobs, lobjs, hobjs, cobjs = [], [], [], []
        for s in lib:
            o = os.path.join(d, "lib_" + s.replace("/", "_") + ".o")
            lobjs.append(o)
            jobs.append(self.pool.submit(self.compile, os.path.join(REPO, s), o, libflags))
        for s in cli:
            o = os.path.join(d, "cli_" + s.replace("/", "_") + ".o")
            cobjs.append(o)
            jobs.append(self.pool.submit(self.compile, os.path.join(REPO, s), o, cliflags))
        hs = [os.path.join(MC, f) for f in sorted(os.listdir(MC)) if f.endswith(".c")]
        hs += [os.path.join(MC, "checks", f) for f in sorted(os.listdir(os.path.join(MC, "checks"))) if f.endswith(".c")]
        for s in hs:
            o = os.path.join(d, "h_" + os.path.basename(s) + ".o")
            hobjs.append(o)
            jobs.append(self.pool.submit(self.compile, s, o, hflags))
        for j in jobs:
            j.result()
        # Redirect the library's system interface.
        nm = run(["nm", "--defined-only", os.path.join(d, "h_env.c.o"), os.path.join(d, "h_sched.c.o")])
        hx = sorted(set(re.findall(r" T hx_(\w+)", nm)))
        mp = os.path.join(d, "redef")
        with open(mp, "w") as f:
            for n in hx:
                f.write("%s hx_%s\n" % (n, n))
        with open(mp + "64", "w") as f:
            for n in hx:
                f.write("%s64 %s\n" % (n, n))
        for o in lobjs + cobjs:
            run(["objcopy", "--redefine-syms=" + mp + "64", o])
            # Its static data goes into sections of its own (see st_init in env.c).
            ren = []
            for sec in sorted(set(re.findall(r"^\s*\d+ (\.(?:data|bss)(?:\.\S+)?)\s", run(["objdump", "-h", o]), re.M))):
                if not sec.startswith(".data.rel.ro"):
                    ren += ["--rename-section", sec + ("=mcdata" if sec.startswith(".data") else "=mcbss")]
            run(["objcopy", "--redefine-syms=" + mp] + ren + [o])
        exe = os.path.join(d, "explorer")
        run(["clang", "-o", exe] + LINK[fl] + hobjs + lobjs + cobjs + ["-lpthread", "-lm"])
        self.done[fl] = exe
        return exe


def known(prop):
    """Listed findings: lines 'open: property=ID part=NAME match=TEXT | what'."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"open: property=(\S+) part=(\S+) match=(.*?) \| (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="build only, to see that everything is there")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--part")
    ap.add_argument("--flavour")
    ap.add_argument("--item")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    t0 = time.time()
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.selftest:
        work = tempfile.mkdtemp(prefix="mc-self-")
        try:
            exe = Builder(work).build("asan")
            print("built; parts:\n" + run([exe, "--list"]))
            return 0
        except BuildError as e:
            print("build failed:\n" + str(e))
            return 2
        finally:
            shutil.rmtree(work, ignore_errors=True)
    budget = a.budget or (760 if tier == "quick" else 6 * 3600)
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="mc-%s-" % a.prop)
    try:
        b = Builder(work)
        if a.replay:
            m = re.match(r"property (\S+)\npart (\S+)", open(a.replay).read())
            fl = re.search(r"@(\w+)\.replay$", a.replay)
            exe = b.build(fl.group(1) if fl else "asan")
            return subprocess.call([exe, "--replay", a.replay, "--workdir", work])
        exe = b.build("asan")
        parts = []
        for line in run([exe, "--list"]).splitlines():
            pid, name, fl = line.split()
            if pid == a.prop and (a.part is None or a.part == name):
                parts.append((name, int(fl)))
        if not parts:
            print("no parts for " + a.prop)
            return 2
        results = []
        violation = None
        for name, bits in parts:
            for fl, bit in FL.items():
                if not bits & bit or (a.flavour and a.flavour != fl):
                    continue
                exe = b.build(fl)
                js = os.path.join(work, "%s-%s.json" % (name, fl))
                left = max(20.0, budget - (time.time() - t0))
                cmd = [exe, "--part", name, "--json", js, "--workdir", work, "--replaydir", work,
                       "--seed", str(seed), "--budget", "%.0f" % left]
                if tier == "thorough":
                    cmd.append("--thorough")
                if a.item:
                    cmd += ["--item", a.item]
                r = subprocess.run(cmd)
                try:
                    res = json.load(open(js))
                except Exception:
                    print("part %s (%s): no result, exit %d" % (name, fl, r.returncode))
                    return 2
                res["flavour"] = fl
                results.append(res)
                print("%s [%s]: %d executions, %d transitions, %d states, %s, %.1fs%s" % (
                    name, fl, res["executions"] - res["pruned"], res["transitions"], res["states"],
                    "complete" if res["complete"] else "INCOMPLETE", res["wall_s"],
                    "" if res["result"] == 0 else " RESULT %d" % res["result"]), flush=True)
                if res["result"] == 1 and violation is None:
                    rp = os.path.join(rdir, "%s@%s.replay" % (name, fl))
                    shutil.copy(res["replay"], rp)
                    violation = (name, fl, res["message"], rp)
                elif res["result"] == 2:
                    print("internal error: " + res["message"])
                    return 2
                if violation:
                    break
            if violation:
                break
        states = sum(r["states"] for r in results)
        trans = sum(r["transitions"] for r in results)
        execs = sum(r["executions"] - r["pruned"] for r in results)
        cov = {
            "states": states,
            "transitions": trans,
            "traces_validated_against_impl": execs,
            "evaluations": execs,
            "distinct_nontrivial": states,
            "rule": "every execution runs the compiled library of /repo under the explorer; a case is one vector of"
                    " choices (operations, schedule, faults, crash points, inputs); distinct states are hashes of the"
                    " abstract state (and store) reached",
            "samples": sum((r["samples"][:4] for r in results), [])[:12],
            "exhaustive": all(r["complete"] for r in results) and a.part is None,
            "parts": [{k: r[k] for k in ("part", "flavour", "space", "items", "items_done", "executions", "pruned",
                                         "transitions", "states", "max_choices", "complete", "wall_s", "counters")}
                      for r in results],
        }
        ev = {"property": a.prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
              "assumptions": ["the in-memory file system of mc/env.c behaves as POSIX/Linux for the calls used"
                              " (compared with the real one by the conformance parts)",
                              "bounds as stated per part"],
              "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
        if a.part is None:
            with open(os.path.join(EVID, a.prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        if violation:
            name, fl, msg, rp = violation
            for part, match, what in known(a.prop):
                if part == name and match in msg:
                    print("KNOWN-FINDING: property=%s %s" % (a.prop, what))
                    return 0
            print("part %s [%s]: %s" % (name, fl, msg))
            print("VIOLATION property=%s replay=%s" % (a.prop, rp))
            return 1
        return 0
    except BuildError as e:
        print("build failed:\n" + str(e))
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept " + work)


if __name__ == "__main__":
    sys.exit(main())
