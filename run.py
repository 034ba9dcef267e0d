#!/usr/bin/env python3
"""Builds one check from /repo's working tree and runs it.

  run.py C01 [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored. Exit 1: violated (a line
VIOLATION property=... replay=... is printed). Exit 2: the check could not
decide (build failure, out of memory, ...).
"""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
SRC = os.path.join(REPO, "distributed_vector_ole")
BUILD = os.environ.get("MC_BUILD", os.path.join(ROOT, "build"))
sys.path.insert(0, ROOT)
from checks.table import CHECKS, LIBSETS  # noqa: E402

BORING = "/usr/lib/x86_64-linux-gnu/android"
CXX = "/usr/bin/g++"
BASE = ["-std=c++17", "-g1", "-Wno-ignored-attributes", "-w",
        "-I" + os.path.join(ROOT, "shim"), "-I" + ROOT, "-I" + REPO,
        "-I/usr/include/android", "-I/usr/include/eigen3", "-DMC_WITH_NTL"]
VARIANTS = {
    # name: (flags for code under test and harness, flags for the mc core, link flags)
    "plain": (["-O1", "-fopenmp", "-DUSE_ASM", "-D_GLIBCXX_ASSERTIONS"], ["-O1"], []),
    "fast": (["-O2", "-fopenmp", "-DUSE_ASM"], ["-O1"], []),
    "asan": (["-O1", "-fopenmp", "-DUSE_ASM", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address",
              "-fno-omit-frame-pointer"], ["-O1", "-fsanitize=address"], ["-fsanitize=address"]),
    "ubsan": (["-O1", "-fopenmp", "-DUSE_ASM", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,alignment",
               "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], ["-O1", "-fsanitize=address"],
              ["-fsanitize=address,alignment"]),
    "asanport": (["-O1", "-fopenmp", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address",
                  "-fno-omit-frame-pointer", "-DMC_PORTABLE"], ["-O1", "-fsanitize=address"], ["-fsanitize=address"]),
    "fastport": (["-O2", "-fopenmp", "-DMC_PORTABLE"], ["-O1"], []),
    # Compiled with thread-sanitizer instrumentation but linked with mc/race.cpp
    # instead of libtsan.
    "race": (["-O1", "-fopenmp", "-DUSE_ASM", "-fsanitize=thread", "-DMC_RACE"], ["-O1"],
             ["-Wl," + ",".join("--wrap=" + f for f in (
                 "__cxa_guard_acquire", "__cxa_guard_release", "memcpy", "memmove", "memset", "AES_encrypt",
                 "AES_set_encrypt_key", "RAND_bytes"))]),
}
ABSL = ["absl_hash", "absl_flat_hash_set", "absl_flat_hash_map", "absl_strings", "absl_int128",
        "absl_optional", "absl_span", "absl_inlined_vector"]


def sources():
    out = {}
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            if f.endswith((".cpp", ".cc", ".cxx")) and not re.search(r"_(test|benchmark)\.\w+$", f):
                rel = os.path.relpath(os.path.join(d, f), SRC)
                out[rel[:-len(os.path.splitext(f)[1])]] = os.path.join(d, f)
    return out


def tree_hash():
    h = hashlib.sha256()
    for top in (SRC, os.path.join(ROOT, "mc"), os.path.join(ROOT, "shim"), os.path.join(ROOT, "checks")):
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            if "__pycache__" in d:
                continue
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:16]


def absl_libs():
    r = subprocess.run(["pkg-config", "--libs"] + ABSL, capture_output=True, text=True)
    return r.stdout.split()


def sh(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        log.append("$ " + " ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.returncode == 0


def privatise(o):
    """Inline functions of the explorer's own objects get names of their own, so
    that the linker does not unite them with the instrumented ones."""
    if subprocess.run(["ld", "-r", "--force-group-allocation", "-o", o + ".r", o]).returncode:
        return False
    os.replace(o + ".r", o)
    r = subprocess.run(["nm", o], capture_output=True, text=True)
    names = sorted({l.split()[2] for l in r.stdout.splitlines() if len(l.split()) == 3 and l.split()[1] in "WVu"})
    with open(o + ".syms", "w") as f:
        tag = os.path.basename(o).split(".")[0]
        f.writelines("%s %s_%s\n" % (n, tag, n) for n in names)
        f.writelines("%s __real_%s\n" % (n, n) for n in (
            "memcpy", "memmove", "memset", "__cxa_guard_acquire", "__cxa_guard_release"))
    return subprocess.run(["objcopy", "--redefine-syms=" + o + ".syms", o]).returncode == 0


def build(check):
    """Returns {binary name: path} or exits 2."""
    bdir = os.path.join(BUILD, tree_hash())
    if os.path.isdir(BUILD):
        for e in os.listdir(BUILD):
            p = os.path.join(BUILD, e)
            if p != bdir and time.time() - os.path.getmtime(p) > 3600 and not os.environ.get("MC_KEEP"):
                shutil.rmtree(p, ignore_errors=True)
    os.makedirs(bdir, exist_ok=True)
    srcs = sources()
    jobs, bins, extra, ars = {}, {}, [], []
    known_units = set(LIBSETS["all"])
    new_units = [k for k in srcs if k not in known_units]
    for b in check["bins"]:
        var = b.get("variant", "asan")
        cut, core, link = VARIANTS[var]
        defs = b.get("defs", [])
        tag = var + ("-" + hashlib.sha256(" ".join(defs).encode()).hexdigest()[:6] if defs else "")
        objs = []

        def add(src, flags, name):
            o = os.path.join(bdir, name + ".o")
            jobs[o] = [CXX] + BASE + flags + ["-c", src, "-o", o + ".tmp"]
            objs.append(o)
        units = list(LIBSETS[b["units"]])
        for u in units:
            if u in srcs:
                add(srcs[u], cut + ["-I" + SRC], "%s_%s" % (var, u.replace("/", "_")))
        # Translation units added by a change: linked where they are needed.
        ar = []
        for u in new_units:
            n0 = len(objs)
            add(srcs[u], cut + ["-I" + SRC], "%s_%s" % (var, u.replace("/", "_")))
            ar += objs[n0:]
            del objs[n0:]
        for m in ("core", "gomp", "net", "rng"):
            flags = core + (["-fopenmp"] if False else [])
            if m == "rng" and b.get("aes_hook"):
                add(os.path.join(ROOT, "mc", m + ".cpp"), flags + ["-DMC_AES_HOOK"], "%s_mc_%s_aes" % (var, m))
            else:
                add(os.path.join(ROOT, "mc", m + ".cpp"), flags, "%s_mc_%s" % (var, m))
        if var == "race":
            add(os.path.join(ROOT, "mc", "race.cpp"), ["-O2"], "race_mc_race")
        hsrc = os.path.join(ROOT, "checks", b["src"])
        add(hsrc, cut + defs, "%s_h_%s" % (tag, b["src"].replace("/", "_").replace(".cpp", "")))
        exe = os.path.join(bdir, "%s_%s" % (tag, b["src"].replace("/", "_").replace(".cpp", "")))
        bins[b["name"]] = exe
        if ar:
            lib = exe + ".new.a"
            ars.append((lib, ["ar", "rcs", lib + ".tmp"] + ar))
            objs.append(lib)
        extra.append((exe, [CXX, "-o", exe + ".tmp"] + objs + link + b.get("link", []) + [
            "-L" + BORING, "-Wl,-rpath," + BORING, "-lcrypto", "-lntl", "-lgmp", "-lboost_serialization",
            "-lpthread", "-ldl"] + absl_libs()))
    log, lock = [], threading.Semaphore(int(os.environ.get("MC_JOBS", "8")))

    def work(o, cmd):
        with lock:
            if log or os.path.exists(o):
                return
            if sh(cmd, log):
                if os.path.basename(o).startswith("race_mc_") and not privatise(o + ".tmp"):
                    log.append("objcopy failed on " + o)
                    return
                os.replace(o + ".tmp", o)
    for batch in (jobs.items(), ars, extra):
        ts = [threading.Thread(target=work, args=x) for x in batch]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if log:
            print("BUILD FAILED\n" + "\n".join(log))
            sys.exit(2)
    return bins


ENV = dict(os.environ, MC_ROOT=ROOT,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
                        "detect_stack_use_after_return=0:handle_abort=0:symbolize=0",
           OMP_NUM_THREADS="1")


class Proc:
    def __init__(self, exe, args, wd, name, stall):
        self.out = os.path.join(wd, name + ".json")
        self.case = os.path.join(wd, name + ".case")
        self.err = os.path.join(wd, name + ".err")
        for p in (self.out, self.case):
            if os.path.exists(p):
                os.unlink(p)
        self.stall = stall
        self.cmd = [exe] + args + ["--out", self.out, "--casefile", self.case]
        self.p = subprocess.Popen(self.cmd, stdout=open(self.err, "wb"), stderr=subprocess.STDOUT,
                                  env=ENV, cwd=wd, start_new_session=True)
        self.last, self.since, self.hung = None, time.time(), False

    def current(self):
        try:
            with open(self.case, "rb") as f:
                return f.read().split(b"\0")[0].decode(errors="replace")
        except OSError:
            return ""

    def poll(self):
        r = self.p.poll()
        if r is None:
            c = self.current()
            cpu = c
            if cpu != self.last:
                self.last, self.since = cpu, time.time()
            elif time.time() - self.since > self.stall:
                self.hung = True
                try:
                    os.killpg(self.p.pid, signal.SIGKILL)
                except OSError:
                    pass
                self.p.wait()
                return -9
        return r

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def tail(self, n=3000):
        try:
            with open(self.err, "rb") as f:
                return f.read()[-n:].decode(errors="replace")
        except OSError:
            return ""


def run_all(specs, wd, stall):
    """specs: [(exe, args, name)]. At most 8 at a time."""
    par = int(os.environ.get("MC_JOBS", "8"))
    todo, live, done = list(specs), [], []
    stop = False
    while (todo and not stop) or live:
        while todo and len(live) < par and not stop:
            exe, args, name = todo.pop(0)
            live.append(Proc(exe, args, wd, name, stall))
        time.sleep(0.02)
        for p in list(live):
            r = p.poll()
            if r is not None:
                live.remove(p)
                p.rc = r
                done.append(p)
                if r != 0:
                    stop = True
        if stop:
            for p in live:
                try:
                    os.killpg(p.p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.p.wait()
            live = []
    return done


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true", help="check that the toolchain is there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        for f in (CXX, BORING, "/usr/include/android", "/usr/include/eigen3", SRC):
            if not os.path.exists(f):
                print("missing: " + f)
                return 2
        os.makedirs(BUILD, exist_ok=True)
        return 0
    check = CHECKS[a.id]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    bins = build(check)
    tb = time.time() - t0
    if a.build_only:
        return 0
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    wd = os.path.join(BUILD, "run-%s-%d" % (a.id, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    stall = check.get("stall", 150)
    specs = []
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        specs.append((bins[rp["bin"]], ["--tier", rp["tier"], "--seed", str(rp["seed"])] + rp["args"], "replay"))
    else:
        for b in check["bins"]:
            n = b.get("shards", 1)
            for i in range(n):
                specs.append((bins[b["name"]], ["--tier", a.tier, "--seed", str(seed), "--shard", "%d/%d" % (i, n)],
                              "%s.%d" % (b["name"], i)))
    procs = run_all(specs, wd, stall)
    rc, vio = 0, None
    for p in procs:
        if p.rc == 0:
            continue
        res = p.result()
        binname = [k for k, v in bins.items() if v == p.cmd[0]][0]
        if p.rc == 1 and res and res.get("verdict") == "violation":
            case, msg = res["case"], res["message"]
        elif p.hung:
            case, msg = p.current(), "no progress for %d s (does not terminate?)" % stall
        else:
            case = p.current()
            msg = "process died with status %s" % p.rc
            t = p.tail()
            m = re.search(r"(AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*|[^\n]*Assertion [^\n]*failed[^\n]*|terminate called[^\n]*(\n *what\(\)[^\n]*)?|explorer:[^\n]*)", t)
            if m:
                msg += ": " + m.group(1)
            if "explorer: nondeterministic" in msg or not case:
                print("CHECK ERROR: %s\n%s" % (msg, t))
                return cleanup(wd, 2)
            if p.rc == -9 and not p.hung:
                print("CHECK ERROR: killed (out of memory?) in case %s" % case)
                return cleanup(wd, 2)
        args = p.cmd[1:]
        args = args[:args.index("--out")]
        # Replay the case alone; fall back to replaying the shard it came from.
        keep = []
        it = iter(args)
        for x in it:
            if x in ("--tier", "--seed"):
                next(it)
            else:
                keep.append(x)
        rp = {"property": a.id, "bin": binname, "tier": a.tier, "seed": seed, "case": case, "message": msg,
              "args": keep}
        if not a.replay:
            q = run_all([(p.cmd[0], ["--tier", a.tier, "--seed", str(seed), "--only", case], "confirm")], wd, stall)[0]
            if q.rc != 0:
                rp["args"] = ["--only", case]
        rd = os.path.join(ev, "replay")
        os.makedirs(rd, exist_ok=True)
        path = a.replay or os.path.join(rd, "%s-%s.json" % (a.id, hashlib.sha256((binname + case).encode()).hexdigest()[:10]))
        if not a.replay:
            with open(path, "w") as f:
                json.dump(rp, f, indent=1)
        print("case: %s\n%s" % (case, msg))
        if res is None:
            print(p.tail(1500))
        print("VIOLATION property=%s replay=%s" % (a.id, path))
        vio = {"case": case, "message": msg}
        rc = 1
        break
    if a.replay:
        if rc == 0:
            print("replay: the case holds")
        return cleanup(wd, rc)
    write_evidence(a, check, procs, seed, time.time() - t0, tb, vio, ev)
    return cleanup(wd, rc)


def cleanup(wd, rc):
    shutil.rmtree(wd, ignore_errors=True)
    return rc


def write_evidence(a, check, procs, seed, wall, tb, vio, ev):
    tot = {k: 0 for k in ("evaluations", "nontrivial", "states", "transitions", "schedules")}
    counters, samples, known, exh = {}, [], [], True
    for p in procs:
        r = p.result()
        if not r:
            exh = False
            continue
        for k in tot:
            tot[k] += r[k]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        samples += [x for x in r["samples"][:3] if x not in samples]
        for k in r["known"]:
            if k not in known:
                known.append(k)
        exh = exh and r["exhaustive"]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (a.id, k))
    level = check["level"]
    cov = {"samples": samples[:12], "exhaustive": bool(exh and vio is None), "build_s": round(tb, 1)}
    if level == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"],
                   traces_validated_against_impl=tot["evaluations"],
                   explanation="Every state and transition was reached by executing the real code built from /repo; "
                               "each execution is itself a trace of the implementation.")
        if tot["schedules"]:
            cov["schedules"] = tot["schedules"]
    else:
        cov.update(evaluations=tot["evaluations"], distinct_nontrivial=tot["nontrivial"], rule=check["rule"])
    cov["counters"] = counters
    doc = {"property": a.id, "tier": a.tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": check.get("assumptions", []), "wall_s": round(wall, 2),
           "violations": 0 if vio is None else 1}
    if vio:
        doc["coverage"]["violation"] = vio
    if known:
        doc["coverage"]["known_findings"] = known
    with open(os.path.join(ev, a.id + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    print("%s %s: %s; %d evaluations, %d states, %d transitions, %d schedules, %.1fs (build %.1fs)" % (
        a.id, a.tier, "VIOLATED" if vio else "held", tot["evaluations"], tot["states"], tot["transitions"],
        tot["schedules"], wall, tb))


if __name__ == "__main__":
    sys.exit(main())
