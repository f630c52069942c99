#!/usr/bin/env python3
"""Builds the simulation harnesses from /repo's working tree into /verif/.build.

Every object is keyed by the contents of its source and of every header it read (depfile), so a
changed tree rebuilds exactly what it must. Usage: build.py [harness ...]  (default: all)
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
CXX = "g++"
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))

DEFS = ["-DPAIMON_ENABLE_ORC", "-DPAIMON_ENABLE_AVRO", "-DSNAPPY_CODEC_AVAILABLE",
        "-DZSTD_CODEC_AVAILABLE", "-DRAPIDJSON_HAS_STDSTRING"]
INCS = ["-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "minarrow"),
        "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "include"),
        "-I" + os.path.join(REPO, "test"), "-I" + os.path.join(REPO, "third_party/roaring_bitmap"),
        "-I" + os.path.join(REPO, "third_party/xxhash")]
BASE = ["-std=c++17", "-w", "-pipe"] + DEFS
# "sim": every memory access of the code under test is a scheduling point (own runtime).
# "san": single-threaded harnesses under AddressSanitizer + UndefinedBehaviorSanitizer.
VARIANTS = {
    "sim": {"cc": ["-O1", "-fsanitize=thread"], "plain": ["-O1", "-fno-threadsafe-statics"], "ld": []},
    "san": {"cc": ["-O1", "-g1", "-fsanitize=address", "-fsanitize=bounds,null,object-size,unreachable,return,vla-bound,integer-divide-by-zero",
                   "-fno-sanitize-recover=undefined"],
            "plain": ["-O1", "-g1", "-DDST_PLAIN", "-fsanitize=address"], "ld": ["-fsanitize=address", "-fsanitize=undefined"]},
}

def all_sources():
    out = []
    for root in ("src/paimon/common", "src/paimon/core", "src/paimon/fs/local", "src/paimon/format/blob"):
        for f in glob.glob(os.path.join(REPO, root, "**", "*.cpp"), recursive=True):
            b = os.path.basename(f)
            if b.endswith("_test.cpp") or "/testing/" in f or b == "logging.cpp" or "jindo" in f:
                continue
            out.append(f)
    out += glob.glob(os.path.join(REPO, "third_party/roaring_bitmap/*.c"))
    out += glob.glob(os.path.join(REPO, "third_party/roaring_bitmap/*.cpp"))
    out += [f for f in glob.glob(os.path.join(REPO, "third_party/xxhash/*.c")) ]
    return sorted(out)

# name -> variant, harness sources, repo objects that register plug-ins by static initialisers
HARNESS = json.load(open(os.path.join(VERIF, "harnesses.json")))

def sha(b):
    return hashlib.sha256(b).hexdigest()

_fh = {}
def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return "-"
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in _fh:
        with open(p, "rb") as f:
            _fh[k] = sha(f.read())
    return _fh[k]

def deps_of(depfile):
    try:
        t = open(depfile).read().replace("\\\n", " ")
    except OSError:
        return None
    return [d for d in t.split(":", 1)[1].split() if d]

# names of the headers that can shadow others: a new one has to be noticed
_SHADOW = "\0".join(sorted(os.path.relpath(f, VERIF) for d in ("sim", "minarrow")
                           for f in glob.glob(os.path.join(VERIF, d, "**/*.h*"), recursive=True)))

def key_of(cmd, deps):
    return sha((_SHADOW + "\0".join(cmd) + "\0" + "\0".join(d + "=" + fhash(d) for d in sorted(deps) if not d.startswith("/usr/"))).encode())

def compile_one(src, obj, flags):
    lang = ["-x", "c++"] if src.endswith(".c") else []
    cmd = [CXX] + flags + lang + ["-c", src]
    dep, keyf = obj + ".d", obj + ".key"
    deps = deps_of(dep)
    if deps and os.path.exists(obj) and os.path.exists(keyf) and open(keyf).read() == key_of(cmd, deps):
        return (src, obj, True, "")
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    for f in (obj, keyf):
        if os.path.exists(f):
            os.remove(f)
    p = subprocess.run(cmd + ["-MD", "-MF", dep, "-MT", "x", "-o", obj], capture_output=True, text=True)
    if p.returncode != 0:
        return (src, obj, False, p.stderr[-4000:])
    with open(keyf, "w") as f:
        f.write(key_of(cmd, deps_of(dep)))
    return (src, obj, True, "")

def objpath(variant, src):
    base = os.path.relpath(src, REPO) if src.startswith(REPO + "/") else "verif/" + os.path.relpath(src, VERIF)
    return os.path.join(BUILD, variant, base + ".o")

def build(names, verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(names, verbose)

def _build(names, verbose):
    jobs, plan = {}, {}
    repo_srcs = all_sources()
    for n in names:
        h = HARNESS[n]
        v = VARIANTS[h["variant"]]
        vn = h["variant"]
        inst = BASE + v["cc"] + INCS
        plain = BASE + v["plain"] + INCS
        p = {"repo": [], "own": [], "whole": []}
        only = h.get("only")
        for s in repo_srcs:
            rel = os.path.relpath(s, REPO)
            if only and not any(rel.startswith(o) for o in only):
                continue
            o = objpath(vn, s)
            jobs[o] = (s, o, inst if not rel.startswith("third_party") else plain)
            p["repo"].append(o)
            if rel in h.get("whole", []):
                p["whole"].append(o)
        for s in h["sources"]:
            s2 = os.path.join(VERIF, s)
            o = objpath(vn, s2)
            jobs[o] = (s2, o, inst)
            p["own"].append(o)
        for s in h.get("plain", []):
            s2 = os.path.join(VERIF, s)
            extra = h.get("plain_defs", [])
            o = objpath(vn + ("-" + n if extra else ""), s2)
            jobs[o] = (s2, o, plain + extra)
            p["own"].append(o)
        plan[n] = p
    failed = {}
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        # big files first
        todo = sorted(jobs.values(), key=lambda j: -os.path.getsize(j[0]))
        for src, obj, ok, err in ex.map(lambda j: compile_one(*j), todo):
            if not ok:
                failed[obj] = (src, err)
                if verbose:
                    print("COMPILE FAILED", src, file=sys.stderr)
    res = {}
    for n in names:
        h, p = HARNESS[n], plan[n]
        own_fail = [failed[o] for o in p["own"] + p["whole"] if o in failed]
        if own_fail:
            res[n] = (False, "\n".join(f"{s}:\n{e}" for s, e in own_fail))
            continue
        v = VARIANTS[h["variant"]]
        out = os.path.join(BUILD, "bin", n)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        objs = [o for o in p["repo"] if o not in failed and o not in p["whole"]]
        lk = sha(("\0".join(p["own"] + p["whole"] + objs) + "".join(open(o + ".key").read() for o in p["own"] + p["whole"] + objs)
                  + json.dumps(h) + json.dumps(v)).encode())
        if os.path.exists(out) and os.path.exists(out + ".key") and open(out + ".key").read() == lk:
            res[n] = (True, out)
            continue
        ar = os.path.join(BUILD, h["variant"], "lib-" + n + ".a")
        if os.path.exists(ar):
            os.remove(ar)
        rsp = ar + ".rsp"
        with open(rsp, "w") as f:
            f.write("\n".join(objs))
        subprocess.run(["ar", "rcsT", ar, "@" + rsp], check=True)
        tmp = out + ".tmp"
        cmd = [CXX] + v["ld"] + ["-rdynamic", "-o", tmp] + sorted(p["own"], key=lambda o: 0 if "/sim/dst" in o else 1) + p["whole"] + [ar, ar] + h.get("libs", []) + ["-lfmt", "-ltbb", "-lpthread", "-ldl"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            extra = "\n".join(f"{s}:\n{e}" for s, e in failed.values())
            res[n] = (False, r.stderr[-6000:] + "\n" + extra[-6000:])
            continue
        os.replace(tmp, out)
        with open(out + ".key", "w") as f:
            f.write(lk)
        res[n] = (True, out)
    return res

if __name__ == "__main__":
    names = sys.argv[1:] or list(HARNESS)
    t = time.time()
    r = build(names, True)
    bad = False
    for n, (ok, what) in r.items():
        print(("built  " if ok else "FAILED ") + n + " " + what)
        bad |= not ok
    print(f"{time.time()-t:.1f}s")
    sys.exit(2 if bad else 0)
