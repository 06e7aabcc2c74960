#!/usr/local/bin/python3
"""Builds the library from the repository's working tree, runs the model-checking harness of one property and writes
its evidence.

  run.py <ID>                    decide property <ID> (tier from VERIF_TIER, default quick)
  run.py <ID> --replay FILE      run the recorded execution of a reported violation again
  run.py --setup                 build everything once

VERIF_REPO names another copy of the repository (development only; the registered commands use /repo).
"""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(HERE, ".cache")
HARNESS = os.path.join(HERE, "harness")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS  # noqa: E402

BASE = ["-O2", "-DNDEBUG", "-g1", "-std=c++17", "-fPIC"]
KINDS = {
    # what the library is compiled with, and the harness too
    "asan": BASE + ["-fsanitize=address", "-fno-omit-frame-pointer"],
    "plain": BASE,
    # instrumented for the scheduler of C01 (own __tsan_* runtime: not linked with -fsanitize=thread)
    "sched": ["-O1", "-DNDEBUG", "-g1", "-std=c++17", "-fPIC", "-U_FORTIFY_SOURCE", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
              "-fno-builtin", "-fsanitize=thread"],
}
# functions which the scheduler of C01 stands in for
WRAP = """__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_mutex_lock pthread_mutex_trylock
pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once sched_yield
memcpy memmove memset memcmp memchr strlen strcmp strncmp strcpy strncpy strcat strchr strtod strtof strtold strtol strtoll
strtoul strtoull vsnprintf snprintf vsprintf sprintf strtok ecvt fcvt setlocale drand48 strerror lgamma""".split()
LINK = {"asan": ["-fsanitize=address"], "plain": [], "sched": ["-rdynamic", "-Wl,-z,now"] + ["-Wl,--wrap=" + w for w in WRAP]}


def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        print(r.stdout[-6000:], file=sys.stderr)
        die("command failed: " + " ".join(cmd))
    return r.stdout


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_files():
    out = [os.path.join(REPO, "CMakeLists.txt")]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(d, f) for f in fs]
    return [p for p in out if os.path.isfile(p)]


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def prune(prefix, keep):
    """Keeps the newest few cache entries of one kind."""
    es = [os.path.join(CACHE, e) for e in os.listdir(CACHE) if e.startswith(prefix) and not e.endswith(".lock")]
    es.sort(key=lambda p: os.path.getmtime(p), reverse=True)
    for p in es[keep:]:
        shutil.rmtree(p, ignore_errors=True)


def env():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["LC_ALL"] = "C"
    for k in list(e):
        if k.endswith("SAN_OPTIONS"):
            del e[k]
    return e


def build_lib(kind):
    flags = KINDS[kind]
    key = digest(repo_files(), " ".join(flags) + REPO)
    out = os.path.join(CACHE, "lib-%s-%s" % (kind, key))
    with Lock("lib-" + kind):
        if os.path.exists(os.path.join(out, "ok")):
            os.utime(out)
            return out, key
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        sh(["cmake", "-S", REPO, "-B", out, "-G", "Ninja", "-DBUILD_TESTS=OFF", "-DCMAKE_BUILD_TYPE=None",
            "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
            "-DCMAKE_CXX_FLAGS=" + " ".join(flags)], env=env())
        sh(["cmake", "--build", out, "-j8"], env=env())
        libs = []
        for d, _, fs in os.walk(out):
            libs += [os.path.join(d, f) for f in fs if f.endswith(".a")]
        if not libs:
            die("the build made no library")
        # dependents first
        libs.sort(key=lambda p: (0 if "rel" in os.path.basename(p) else 1, p))
        with open(os.path.join(out, "ok"), "w") as f:
            f.write("\n".join(libs))
        prune("lib-%s-" % kind, 4)
        return out, key


def build_harness(source, kind):
    lib, key = build_lib(kind)
    hs = [os.path.join(HARNESS, f) for f in os.listdir(HARNESS) if f.endswith(".h")] + [os.path.join(HARNESS, source)]
    if kind == "sched":
        hs.append(os.path.join(HARNESS, "scheduler_rt.cc"))
    extra = CHECK_EXTRA.get((source, kind), [])
    flags = KINDS[kind] + ["-I", os.path.join(REPO, "src"), "-I", HARNESS, "-Wno-unused-result"]
    hkey = digest(hs, key + " ".join(flags + extra))
    name = source.rsplit(".", 1)[0]
    out = os.path.join(CACHE, "bin-%s-%s-%s" % (name, kind, hkey))
    exe = os.path.join(out, "check")
    with Lock("bin-" + name + "-" + kind):
        if os.path.exists(exe):
            os.utime(out)
            return exe, lib
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        with open(os.path.join(lib, "ok")) as f:
            libs = f.read().split("\n")
        inputs = [os.path.join(HARNESS, source)]
        if kind == "sched":
            # linked without -fsanitize=thread: scheduler_rt.cc is the runtime, and is not instrumented itself
            objs = [os.path.join(out, "harness.o"), os.path.join(out, "rt.o")]
            sh(["g++"] + flags + ["-c", inputs[0], "-o", objs[0]], env=env())
            sh(["g++", "-O2", "-g1", "-std=c++17", "-U_FORTIFY_SOURCE", "-fno-builtin", "-Wno-unused-result", "-I", HARNESS, "-c",
                os.path.join(HARNESS, "scheduler_rt.cc"), "-o", objs[1]], env=env())
            inputs, flags = objs, []
        sh(["g++"] + flags + inputs + ["-o", exe + ".tmp"] + extra +
           ["-Wl,--start-group"] + libs + ["-Wl,--end-group"] + LINK[kind] + ["-lpthread", "-ldl"], env=env())
        os.rename(exe + ".tmp", exe)
        prune("bin-%s-%s-" % (name, kind), 3)
        return exe, lib


CHECK_EXTRA = {}


def merge(total, part):
    for k in ("execs", "transitions", "states", "outcomes"):
        total[k] += part[k]
    total["states_capped"] = total["states_capped"] or part["states_capped"]
    total["phases"] += part["phases"]
    total["samples"] += part["samples"]


def findings(prop):
    known, fixed = [], []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"(finding|fixed): property=(\S+) (.*)", line.strip())
            if m and m.group(2) == prop:
                (known if m.group(1) == "finding" else fixed).append(m.group(3))
    return known, fixed


def run(prop):
    t0 = time.time()
    spec = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    total = {"execs": 0, "transitions": 0, "states": 0, "outcomes": 0, "states_capped": False, "phases": [], "samples": []}
    violation = error = None
    for source, kind, tiers in spec["harness"]:
        if tier not in tiers:
            continue
        exe, _ = build_harness(source, kind)
        tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        try:
            stats = os.path.join(tmp, "stats.json")
            r = subprocess.run([exe, "--tier", tier, "--workers", str(os.cpu_count() or 8), "--out", stats, "--tmp", tmp],
                               env=env(), stdin=subprocess.DEVNULL)
            if not os.path.exists(stats):
                error = "harness %s ended with %d and left no statistics" % (source, r.returncode)
                break
            with open(stats) as f:
                s = json.load(f)
            merge(total, s)
            if s.get("violation"):
                violation = dict(s["violation"], source=source, kind=kind)
                break
            if s.get("error") or r.returncode != 0:
                error = s.get("error") or "harness %s ended with %d" % (source, r.returncode)
                break
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    wall = round(time.time() - t0, 2)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total["states"],
            "transitions": total["transitions"],
            "traces_validated_against_impl": total["execs"],
            "distinct_outcomes": total["outcomes"],
            "exhaustive": not violation and not error,
            "states_is_lower_bound": total["states_capped"],
            "rule": spec["rule"],
            "phases": total["phases"],
            "samples": total["samples"][:40],
        },
        "assumptions": spec["assumptions"],
        "wall_s": wall,
        "violations": 1 if violation else 0,
    }
    if error:
        ev["coverage"]["error"] = error
    if violation:
        ev["coverage"]["violation"] = violation
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    known, _ = findings(prop)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s (%s): %d executions, %d transitions, %d states, %d distinct outcomes, %.1f s" %
          (prop, tier, total["execs"], total["transitions"], total["states"], total["outcomes"], wall))
    if violation:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha256(json.dumps(violation, sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(d, "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, **violation,
                       "replay": "python3 run.py %s --replay %s" % (prop, path)}, f, indent=1)
            f.write("\n")
        print("phase %s: %s" % (violation["phase"], violation["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if error:
        print("ERROR: " + error)
        return 2
    return 0


def replay(prop, path):
    with open(path) as f:
        v = json.load(f)
    exe, _ = build_harness(v["source"], v["kind"])
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        if v["how"] == "shard":
            cmd = [exe, "--tier", v["tier"], "--workers", str(v["workers"]), "--out", os.path.join(tmp, "s.json"), "--tmp", tmp]
        else:
            cmd = [exe, "--tier", v["tier"], "--tmp", tmp, "--replay", v["phase"], v["choices"]]
        return subprocess.run(cmd, env=env()).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if len(sys.argv) < 2:
        die(__doc__)
    if sys.argv[1] == "--setup":
        from concurrent.futures import ThreadPoolExecutor
        todo = sorted({(s, k) for c in CHECKS.values() for s, k, _ in c["harness"]})
        for k in sorted({k for _, k in todo}):
            build_lib(k)
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda t: build_harness(*t), todo))
        return 0
    prop = sys.argv[1]
    if prop not in CHECKS:
        die("no such property: " + prop)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(prop, sys.argv[3])
    return run(prop)


if __name__ == "__main__":
    sys.exit(main())
