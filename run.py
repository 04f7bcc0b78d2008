#!/usr/bin/env python3
"""Check driver: builds the library from /repo's current tree and one property's
harness, runs generated cases in two build variants, writes the evidence file.

  run.py C06 [quick|thorough]         run the check (VERIF_SEED, default 1)
  run.py C06 replay FILE              replay one saved case
  run.py --setup                      build the engine once (optional warm-up)
"""
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
MPI = "/usr/lib/x86_64-linux-gnu/openmpi/include"
LIBS = ["-Wl," + ",".join("--wrap=sc_" + f for f in ("malloc", "calloc", "realloc", "free", "strdup", "memory_status")), "/usr/lib/x86_64-linux-gnu/libsc.a", "-lz", "-lm", "-lpthread"]
INC = ["-I" + V + "/compat", "-I" + REPO + "/src", "-I" + MPI]
VARIANTS = {
    # address sanitizer and the library's own assertions
    "asan": ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-DVERIF_DEBUG"],
    # optimized, without assertions: what a release build does
    "opt": ["-O2", "-g1"],
}
NCPU = min(8, os.cpu_count() or 8)

sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def slurp(f):
    with open(f, "rb") as h:
        return h.read()


class Builder:
    def __init__(self):
        self.repo_headers = sha(*[slurp(f) for f in sorted(glob.glob(REPO + "/src/*.h") + glob.glob(V + "/compat/*.h"))])
        self.own_headers = sha(*[slurp(f) for f in sorted(glob.glob(V + "/engine/*.h") + glob.glob(V + "/props/*.h"))])
        self.repo_all_c = None
        os.makedirs(BUILD, exist_ok=True)

    def obj(self, src, flags, cxx):
        """(object path, command or None if cached)"""
        text = slurp(src)
        # sources of the library include other sources (p8est_*.c include p4est_*.c)
        extra = b""
        if not cxx:
            if self.repo_all_c is None:
                self.repo_all_c = sha(*[slurp(f) for f in sorted(glob.glob(REPO + "/src/p4est_*.c") + glob.glob(REPO + "/src/p4est.c"))])
            if b'.c"' in text:
                extra = self.repo_all_c.encode()
        key = sha(text, extra, self.repo_headers, self.own_headers if cxx else "", " ".join(flags), src, cxx)
        out = os.path.join(BUILD, os.path.basename(src).rsplit(".", 1)[0] + "-" + key + ".o")
        if os.path.exists(out):
            return out, None
        cc = ["clang++", "-std=c++17"] if cxx else ["clang", "-std=gnu11"]
        tmp = out + ".%d" % os.getpid()
        return out, (cc + flags + INC + (["-I" + V + "/engine"] if cxx else []) + ["-c", src, "-o", tmp], tmp)


def plan(b, prop):
    c = CHECKS[prop]
    jobs, parts = {}, {"asan": [], "opt": []}

    def add(src, flags, cxx, to):
        o, cmd = b.obj(src, flags, cxx)
        if cmd:
            jobs[o] = cmd
        for t in to:
            parts[t].append(o)

    cxxf = ["-O1", "-g1", "-Wall", "-Wno-unused-function"]
    both = ["asan", "opt"]
    dims = c.get("dims", "23")
    for d in dims:
        f = cxxf + ["-DVDIM=" + d]
        for s in ["harness"] + c.get("mods", []):
            add(V + "/engine/%s.cpp" % s, f, True, both)
        add(V + "/props/%s.cpp" % prop, f + c.get("flags", []), True, both)
    add(V + "/engine/simmpi.cpp", cxxf, True, both)
    add(V + "/engine/engine.cpp", cxxf, True, both)
    add(V + "/engine/glue.cpp", cxxf + ["-DPROP_ID=" + prop, "-DWEIGHT3=%d" % c.get("weight3", 45)] + ["-DHAVE" + d for d in dims], True, both)
    for s in sorted(glob.glob(REPO + "/src/*.c")):
        for v in both:
            add(s, VARIANTS[v] + ["-w"], False, [v])
    return jobs, parts


def compile_all(jobs):
    def one(item):
        out, (cmd, tmp) = item
        for attempt in range(2):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                os.replace(tmp, out)
                break
        return r.returncode, cmd, r.stdout
    # slowest first
    order = sorted(jobs.items(), key=lambda j: (not j[0].endswith(".o"), -slow(j[0])))
    with concurrent.futures.ThreadPoolExecutor(NCPU + 2) as ex:
        for rc, cmd, txt in ex.map(one, order):
            if rc:
                sys.stderr.write(" ".join(cmd) + "\n" + txt)
                sys.exit(2)


def slow(o):
    n = os.path.basename(o)
    if n.startswith(("C", "simmpi", "harness", "history", "model")):
        return 10
    if n.startswith(("p8est_", "p4est_")) and any(k in n for k in ("lnodes", "iterate", "mesh", "bits", "connectivity", "algorithms", "search", "plex", "ghost", "nodes")):
        return 5
    return 1


def link(prop, parts):
    exe = {}
    procs = []
    for v, objs in parts.items():
        key = sha(*objs, *LIBS)
        e = os.path.join(BUILD, "%s-%s-%s" % (prop, v, key))
        exe[v] = e
        if not os.path.exists(e):
            cmd = ["clang++", "-o", e + ".tmp%d" % os.getpid()] + (["-fsanitize=address"] if v == "asan" else []) + objs + LIBS
            procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), cmd, e))
    for p, cmd, e in procs:
        txt = p.communicate()[0]
        if p.returncode:
            sys.stderr.write(txt)
            sys.exit(2)
        os.replace(e + ".tmp%d" % os.getpid(), e)
    return exe


ASAN = ("detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:hard_rss_limit_mb=3500:allocator_may_return_null=0:"
        "max_malloc_fill_size=1048576:malloc_fill_byte=190:detect_odr_violation=0:exitcode=99:quarantine_size_mb=32:max_free_fill_size=4096:free_fill_byte=173")


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN
    e["MALLOC_PERTURB_"] = "165"
    e.pop("ENG_NOASLR", None)
    return e


def known(prop):
    out = []
    f = V + "/known_findings.json"
    if os.path.exists(f):
        for k in json.load(open(f))["findings"]:
            if k["property"] == prop:
                out.append(k)
    return out


def build(prop):
    b = Builder()
    jobs, parts = plan(b, prop)
    compile_all(jobs)
    return link(prop, parts)


def check(prop, tier, seed):
    t0 = time.time()
    c = CHECKS[prop]
    exe = build(prop)
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    replays = os.path.join(V, "replays")
    os.makedirs(replays, exist_ok=True)
    cases = c["cases"] if tier == "quick" else c.get("thorough", [n * 12 for n in c["cases"]])
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    maxtime = 400 if tier == "quick" else 3300
    procs, stats = [], {}
    for v, n in zip(("asan", "opt"), cases):
        if n <= 0:
            continue
        out = os.path.join(scratch, v + ".json")
        first = 0 if v == "asan" else 1 << 40   # different cases in each variant
        cmd = [exe[v], "--seed", str(seed), "--cases", str(max(1, int(n * scale))), "--first", str(first), "--workers", str(c.get("workers", 6)),
               "--batch", str(c.get("batch", 32)), "--variant", v, "--out", out, "--replaydir", replays, "--scratch", scratch,
               "--maxtime", str(maxtime), "--percase", str(c.get("percase", 25 if tier == "quick" else 60)), "--tier", tier]
        procs.append((v, out, subprocess.Popen(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    rcs, errs = {}, {}
    pending = list(procs)
    while pending:
        for item in list(pending):
            v, out, p = item
            if item not in pending or p.poll() is None:
                continue
            o, e = p.communicate()
            rcs[v], errs[v] = p.returncode, e
            try:
                stats[v] = json.load(open(out))
            except Exception:
                stats[v] = None
            pending.remove(item)
            if p.returncode == 1 and pending:
                # one violation is enough; let the other variant stop
                for _, _, q in pending:
                    q.terminate()
                for it2 in list(pending):
                    it2[2].communicate()
                    pending.remove(it2)
        time.sleep(0.05)
    shutil.rmtree(scratch, ignore_errors=True)
    violations = [(v, stats[v]) for v in rcs if rcs[v] == 1]
    broken = [v for v in rcs if rcs[v] not in (0, 1)]
    wall = time.time() - t0
    ok = {v: s for v, s in stats.items() if s}
    labels = {}
    for s in ok.values():
        for k, n in s["labels"].items():
            labels[k] = labels.get(k, 0) + n
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in ok.values()),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in ok.values()),
            "rule": c["rule"],
            "samples": [x for s in ok.values() for x in s["samples"]][:8],
            "classes": labels,
            "oracle_comparisons": sum(s["checks"] for s in ok.values()),
            "discarded": sum(s["discarded"] for s in ok.values()),
            "variants": {v: {k: s[k] for k in ("evaluations", "nontrivial", "status", "wall_s")} for v, s in ok.items()},
        },
        "wall_s": round(wall, 2), "build_s": round(tb, 2),
        "violations": [{"variant": v, "replay": s["replay"], "message": s["message"], "case": s["case"]} for v, s in violations],
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for v, s in violations:
        print("%s (%s): %s" % (prop, v, s["message"]))
        print("  case: %s" % s["case"])
        print("VIOLATION property=%s replay=%s" % (prop, s["replay"]))
    if violations:
        return 1
    if broken:
        for v in broken:
            sys.stderr.write("%s/%s: exit %d\n%s\n" % (prop, v, rcs[v], errs[v]))
        return 2
    for v, s in ok.items():
        if s["status"] != "ok":
            sys.stderr.write("%s/%s: %s after %d of %d cases\n" % (prop, v, s["status"], s["evaluations"], s["requested"]))
    print("%s: %d cases, %d distinct non-trivial, %d comparisons, %.1f s (build %.1f s): no violation" %
          (prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["coverage"]["oracle_comparisons"], wall, tb))
    return 0


def replay(prop, f):
    exe = build(prop)
    v = "asan"
    for line in open(f):
        if line.startswith("variant "):
            v = line.split()[1]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        r = subprocess.run([exe[v], "--replay", f, "--scratch", scratch, "--variant", v], env=env())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return r.returncode


def main():
    if sys.argv[1] == "--setup":
        b = Builder()
        jobs = {}
        for p in CHECKS:
            jobs.update(plan(b, p)[0])
        return 0
    prop = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if mode == "replay":
        return replay(prop, sys.argv[3])
    return check(prop, mode, seed)


if __name__ == "__main__":
    sys.exit(main())
