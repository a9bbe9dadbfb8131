#!/usr/bin/env python3
"""Builds the simulator executables from /repo's current working tree into /verif/build.
usage: build.py VARIANT   (VARIANT: step | race)   prints the path of the executable"""
import sys, os, subprocess, hashlib, glob, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
CXX = "/usr/bin/g++-10" if os.path.exists("/usr/bin/g++-10") else "g++"
WRAPS = """pthread_create pthread_join pthread_detach pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock
pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort
sched_yield nanosleep clock_nanosleep usleep sleep gettimeofday clock_gettime time clock getrusage syscall signal sigaction exit _exit
open open64 read write writev lseek lseek64 fopen fopen64 stat stat64
getpid getrandom getentropy _ZNSt13random_device9_M_getvalEv""".split()
BASE = ["-std=c++14", "-DNDEBUG", "-O2", "-msse4.1", "-pthread", "-fno-pie", "-w",
        "-I" + REPO + "/src", "-I" + REPO + "/lib/oscpack"]
MAINS = {"Main.cc": "candy_main", "cnf2aig.cc": "cnf2aig_main"}     # programs under test: their main is renamed after compilation
VARIANTS = {"step": ["-fsanitize-coverage=trace-pc"], "race": ["-fsanitize=thread"]}

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]

def files(root, exts):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(exts): out.append(os.path.join(d, f))
    return out

def has_main(path):
    import re
    txt = open(path, errors="replace").read()
    return re.search(r"^\s*(?:int|auto)\s+main\s*\(", txt, re.M) is not None

def build(variant, out_root=None):
    out_root = out_root or os.environ.get("SIM_BUILD") or os.path.join(VERIF, "build")
    inst = VARIANTS[variant]
    src = os.path.join(REPO, "src", "candy")
    headers = files(os.path.join(REPO, "src"), (".h", ".hpp", ".hh", ".cc", ".cpp", ".c", ".inc", ".ipp"))
    simfiles = files(HERE, (".h", ".cc", ".py"))
    key = tree_hash(headers + simfiles) + "-" + variant
    d = os.path.join(out_root, key)
    exe = os.path.join(d, "simcandy")
    if os.path.exists(exe): return exe
    os.makedirs(d, exist_ok=True)
    # drop older builds of this variant
    for old in glob.glob(os.path.join(out_root, "*-" + variant)):
        if old != d:
            subprocess.run(["rm", "-rf", old])
    jobs = []
    for p in sorted(files(src, (".cc", ".cpp"))):
        rel = os.path.relpath(p, src)
        if rel.startswith("gbd"): continue
        flags = list(inst)
        if has_main(p):
            if os.path.basename(p) not in MAINS: continue
        jobs.append((p, os.path.join(d, "c_" + rel.replace("/", "_") + ".o"), BASE + flags))
    for p in sorted(glob.glob(os.path.join(HERE, "*.cc"))):
        jobs.append((p, os.path.join(d, "s_" + os.path.basename(p) + ".o"), BASE + ["-g1", "-DSIM_VARIANT=\"%s\"" % variant, "-I" + HERE]))
    jobs.sort(key=lambda j: -(os.path.getsize(j[0]) + (10**9 if "CandyBuilder" in j[0] else 0)))
    with ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2)) as ex:
        def one(j):
            try:
                sh([CXX] + j[2] + ["-c", j[0], "-o", j[1]])
                if j[0].startswith(src) and os.path.basename(j[0]) in MAINS: sh(["objcopy", "--redefine-sym", "main=" + MAINS[os.path.basename(j[0])], j[1]])
                return None
            except RuntimeError as e:
                if os.path.basename(j[1]).startswith("s_scn_"):      # a scenario that does not compile against this tree is left out
                    print(str(e)[-1500:], file=sys.stderr); return j
                raise
        bad = [x for x in ex.map(one, jobs) if x]
    jobs = [j for j in jobs if j not in bad]
    sh([CXX, "-static", "-no-pie", "-pthread", "-o", exe + ".tmp"] + [j[1] for j in jobs] +
       ["-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-lz"])
    for j in jobs: os.remove(j[1])
    os.rename(exe + ".tmp", exe)
    return exe

if __name__ == "__main__":
    print(build(sys.argv[1]))
