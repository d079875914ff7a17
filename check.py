#!/usr/bin/env python3
"""Decides one property of mvl-solver by monitored execution.

  check.py C01 [--cases N] [--case N] [--tier quick|thorough] [--seed N]

Builds the instrumented programs from /repo's working tree (out of tree, into /verif/build),
runs the property's campaign on all cores, merges what the monitors observed, writes
evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.  Exit 0, 1, or 2 (the check
itself failed).
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MVL_REPO", "/repo")
NPROC = int(os.environ.get("MVL_NPROC", "8"))
BUILD = os.path.join(VERIF, "build")

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -g"
MSAN = "-fsanitize=memory -fsanitize-recover=memory -mllvm -msan-poison-stack=0 -fno-omit-frame-pointer -g -D_GLIBCXX_EXTERN_TEMPLATE=0"
# name: (source dir, compiler, flags, link flags)
VARIANTS = {
    "src":      ("src", "g++", "-O1", ""),
    "bv":       ("bitvec", "g++", "-O1", ""),
    "src_asan": ("src", "g++", "-O1 %s -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR" % SAN, "-fsanitize=address,undefined"),
    "bv_asan":  ("bitvec", "g++", "-O1 %s -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR" % SAN, "-fsanitize=address,undefined"),
    "src_dbg":  ("src", "g++", "-O1 -g -D_GLIBCXX_DEBUG -D_GLIBCXX_DEBUG_PEDANTIC", ""),
    "bv_dbg":   ("bitvec", "g++", "-O1 -g -D_GLIBCXX_DEBUG -D_GLIBCXX_DEBUG_PEDANTIC", ""),
    "src_vg":   ("src", "g++", "-O1 -g", "valgrind"),
    "bv_vg":    ("bitvec", "g++", "-O1 -g", "valgrind"),
    "src_clang_asan": ("src", "clang++", "-O1 %s" % SAN, "-fsanitize=address,undefined"),
    "bv_clang_asan":  ("bitvec", "clang++", "-O1 %s" % SAN, "-fsanitize=address,undefined"),
    # MSan with the system's uninstrumented libstdc++: the templates are instantiated in our own objects,
    # the stack is not tracked, and a report counts only when valgrind confirms it (props_san.cc)
    "src_msan": ("src", "clang++", "-O1 %s" % MSAN, "-fsanitize=memory"),
    "bv_msan":  ("bitvec", "clang++", "-O1 %s" % MSAN, "-fsanitize=memory"),
    "src_O0":   ("src", "g++", "-O0", ""),
    "src_O3":   ("src", "g++", "-O3", ""),
    "src_clang": ("src", "clang++", "-O2", ""),
    "src_pat":  ("src", "clang++", "-O2 -ftrivial-auto-var-init=pattern", ""),
    "src_zero": ("src", "clang++", "-O2 -ftrivial-auto-var-init=zero", ""),
    "bv_O0":    ("bitvec", "g++", "-O0", ""),
    "bv_O3":    ("bitvec", "g++", "-O3", ""),
    "bv_pat":   ("bitvec", "clang++", "-O2 -ftrivial-auto-var-init=pattern", ""),
    # C32: file transfers cut short, interrupted or failing
    "src_fault": ("src", "g++", "-O1", "fault"),
    "bv_fault": ("bitvec", "g++", "-O1", "fault"),
    # C34: every allocation recorded
    "src_mem": ("src", "g++", "-O1", "mem"),
    "bv_mem": ("bitvec", "g++", "-O1", "mem"),
    # C12: the verification routine on its own
    "src_verify": ("src", "g++", "-O1", "harness:verify_src.cc"),
    "bv_verify": ("bitvec", "g++", "-O1", "harness:verify_bv.cc"),
}

# property: (variants quick, extra variants thorough, cases quick, cases thorough)
PLAN = {
    "C01": (["src"], [], 40000, 500000),
    "C02": (["src"], [], 50000, 600000),
    "C03": (["src", "src_O0"], [], 30000, 400000),
    "C04": (["src", "bv"], [], 16000, 160000),
    "C05": (["src", "bv"], [], 40000, 500000),
    "C06": (["src", "bv"], [], 40000, 500000),
    "C07": (["src", "bv"], [], 40000, 500000),
    "C08": (["src", "bv"], [], 32000, 400000),
    "C09": (["src", "bv"], [], 36000, 450000),
    "C10": (["src", "bv"], [], 30000, 350000),
    "C11": (["src", "bv"], [], 40000, 500000),
    "C12": (["src", "bv", "src_verify", "bv_verify"], [], 50000, 700000),
    "C13": (["src", "bv"], [], 30000, 350000),
    "C14": (["src"], [], 80000, 1000000),
    "C15": (["src"], [], 100000, 1200000),
    "C16": (["src"], [], 90000, 1100000),
    "C17": (["src"], [], 80000, 1000000),
    "C18": (["src"], [], 80000, 1500000),
    "C19": (["src"], [], 8000, 60000),
    "C20": (["src_asan", "src_dbg", "src_clang_asan", "src_vg", "src_msan"], [], 3000, 40000),
    "C21": (["src_asan", "src_dbg", "src_clang_asan", "src_vg", "src_msan"], [], 8000, 150000),
    "C22": (["src", "src_O0", "src_O3", "src_clang", "src_pat", "src_zero", "bv", "bv_O0", "bv_O3", "bv_pat"], [], 32000, 400000),
    "C23": (["src", "bv"], [], 32000, 350000),
    "C24": (["bv"], [], 48000, 600000),
    "C25": (["bv"], [], 28000, 350000),
    "C26": (["bv"], [], 40000, 500000),
    "C28": (["src", "bv"], [], 80000, 1000000),
    "C29": (["src", "bv"], [], 60000, 800000),
    "C30": (["src", "bv"], [], 40000, 500000),
    "C31": (["src", "bv"], [], 40000, 500000),
    "C32": (["src_fault", "bv_fault"], [], 80000, 1000000),
    "C33": (["src", "bv", "src_fault", "bv_fault"], [], 40000, 500000),
    "C34": (["src_mem", "bv_mem"], [], 40000, 400000),
    "C27": (["bv_asan", "bv_dbg", "bv_clang_asan", "bv_vg", "bv_msan"], [], 6000, 80000),
}
PLAN_FILE = os.path.join(VERIF, "plan.json")


def die(msg):
    print("check failed: " + msg, flush=True)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(paths, *extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    for e in extra:
        h.update(e.encode() + b"\1")
    return h.hexdigest()[:16]


def sources(d):
    out = []
    for e in ("*.cc", "*.cpp", "*.cxx", "*.C", "*.c"):
        out += glob.glob(os.path.join(REPO, d, e))
    return sorted(out)


def headers(d):
    out = []
    for e in ("*.h", "*.hh", "*.hpp", "*.inc"):
        out += glob.glob(os.path.join(REPO, d, e))
    return sorted(out)


class Builder:
    def __init__(self):
        self.pool = concurrent.futures.ThreadPoolExecutor(NPROC)
        os.makedirs(BUILD, exist_ok=True)
        self.tmp = []

    def compile(self, jobs):
        """jobs: (list of commands, object, description). Returns the failures as (variant, text)."""
        def one(j):
            steps, obj, what, owner = j
            if os.path.exists(obj):
                os.utime(obj)
                return None
            part = obj + ".%d" % os.getpid()
            for cmd in steps:
                cmd = [part if x == obj else x for x in cmd]
                r = sh(cmd)
                if r.returncode:
                    if os.path.exists(part):
                        os.unlink(part)
                    return owner, what + "\n" + " ".join(cmd) + "\n" + r.stdout[-3000:]
            os.rename(part, obj)
            return None
        return [x for x in self.pool.map(one, jobs) if x]

    def plan(self, owner, srcs, hdrs, cxx, flags, rename):
        """Compilation jobs; objects are kept by the content of what they are made of."""
        jobs, objs = [], []
        od = os.path.join(BUILD, "obj")
        os.makedirs(od, exist_ok=True)
        for s in srcs:
            o = os.path.join(od, os.path.basename(s) + "-" + digest([s] + hdrs, cxx, flags, str(rename)) + ".o")
            objs.append(o)
            steps = [[cxx] + flags.split() + ["-w", "-c", s, "-o", o]]
            if rename:
                steps.append(["objcopy", "--redefine-sym", "main=mvl_main_c", o])
            jobs.append((steps, o, s, owner))
        return jobs, objs

    def run(self, names):
        """Builds the driver and the named variants; returns (driver, bindir, missing)."""
        mon = sorted(glob.glob(os.path.join(VERIF, "mon", "*.cc")) + glob.glob(os.path.join(VERIF, "mon", "*.h")))
        drv_src = [m for m in mon if m.endswith(".cc") and os.path.basename(m) not in ("shim.cc", "fault.cc", "mem.cc") and not os.path.basename(m).startswith("verify_")]
        shim = os.path.join(VERIF, "mon", "shim.cc")
        todo, jobs = [], []
        dd = os.path.join(BUILD, "driver-" + digest(mon))
        driver = os.path.join(dd, "mon")
        if not os.path.exists(driver):
            work = dd + ".%d" % os.getpid()
            os.makedirs(work, exist_ok=True)
            self.tmp.append(work)
            j, objs = self.plan("driver", drv_src, [m for m in mon if m.endswith(".h")], "g++", "-std=c++17 -O1 -g0", False)
            jobs += j
            todo.append(("driver", dd, work, objs))
        bins = {}
        for n in names:
            d, cxx, flags, link = VARIANTS[n]
            srcs = sources(d)
            if not srcs:
                die("no sources in %s/%s" % (REPO, d))
            extra = [shim]
            extra.append(os.path.join(VERIF, "mon", "fault.h"))
            extra.append(os.path.join(VERIF, "mon", "mem.h"))
            if link in ("fault", "mem"):
                extra.append(os.path.join(VERIF, "mon", link + ".cc"))
            if link.startswith("harness:"):
                extra.append(os.path.join(VERIF, "mon", link[8:]))
            key = digest(srcs + headers(d) + extra, n, cxx, flags, link)
            vd = os.path.join(BUILD, n + "-" + key)
            bins[n] = os.path.join(vd, n)
            if os.path.exists(bins[n]):
                continue
            work = vd + ".%d" % os.getpid()
            os.makedirs(work, exist_ok=True)
            self.tmp.append(work)
            use = srcs
            if link.startswith("harness:"):
                use = [s for s in srcs if os.path.basename(s) != "Main.cc"] + extra[3:]
            j, objs = self.plan(n, use, headers(d), cxx, flags + " -I" + os.path.join(REPO, d), True)
            jobs += j
            plain = flags
            for x in ("-D_GLIBCXX_DEBUG_PEDANTIC", "-D_GLIBCXX_DEBUG", "-fsanitize=memory -fsanitize-recover=memory -mllvm -msan-poison-stack=0", "-D_GLIBCXX_EXTERN_TEMPLATE=0"):
                plain = plain.replace(x, "")
            j, so = self.plan(n, [shim] + extra[3:] if link in ("fault", "mem") else [shim], extra[1:3], cxx, plain, False)
            jobs += j
            todo.append((n, vd, work, objs + so))
        missing = {}
        broken = set()
        for n, f in self.compile(list({j[1]: j for j in jobs}.values())):
            if n != "driver" and VARIANTS[n][3].startswith("harness:"):
                missing[n] = f
                broken.add(n)
            else:
                die("cannot compile " + f)

        def link(t):
            n, vd, work, objs = t
            if n in broken:
                return None
            if n == "driver":
                r = sh(["g++", "-o", os.path.join(work, "mon")] + objs)
                if r.returncode:
                    return "link driver: " + r.stdout[-3000:]
            else:
                d, cxx, flags, lk = VARIANTS[n]
                real = n + ".real" if lk == "valgrind" else n
                lf = lk.split() if lk.startswith("-f") else []
                r = sh([cxx, "-o", os.path.join(work, real)] + lf + objs)
                if r.returncode:
                    if lk.startswith("harness:"):
                        missing[n] = r.stdout[-3000:]
                        return None
                    return "link " + n + ": " + r.stdout[-3000:]
                if lk == "valgrind":
                    w = os.path.join(work, n)
                    with open(w, "w") as f:
                        f.write("#!/bin/sh\nexec valgrind -q --error-exitcode=86 --leak-check=no --undef-value-errors=yes --track-origins=no --child-silent-after-fork=no '%s'\n" % os.path.join(vd, real))
                    os.chmod(w, 0o755)
            try:
                os.rename(work, vd)
            except OSError:
                if not os.path.isdir(vd):
                    return "rename failed " + vd
            return None
        for e in self.pool.map(link, todo):
            if e:
                die(e)
        self.clean()
        bindir = tempfile.mkdtemp(prefix="bin.", dir=BUILD)
        self.tmp.append(bindir)
        for n, p in bins.items():
            if n not in missing and os.path.exists(p):
                os.symlink(p, os.path.join(bindir, n))
        return driver, bindir, missing

    def clean(self):
        for t in self.tmp:
            shutil.rmtree(t, ignore_errors=True)
        self.tmp = []


def prune():
    """Keep the build folder from growing: drop all but the 60 most recent entries."""
    try:
        ents = sorted((os.path.getmtime(os.path.join(BUILD, e)), e) for e in os.listdir(BUILD))
    except OSError:
        return
    for _, e in [x for x in ents if x[1] != "obj"][:-60]:
        shutil.rmtree(os.path.join(BUILD, e), ignore_errors=True)
    try:
        od = os.path.join(BUILD, "obj")
        for _, e in sorted((os.path.getmtime(os.path.join(od, e)), e) for e in os.listdir(od))[:-900]:
            os.unlink(os.path.join(od, e))
    except OSError:
        pass


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k.get("status") == "known"]


def main():
    a = sys.argv[1:]
    if not a:
        die("which property?")
    prop = a[0]
    if prop == "setup":          # warm the build cache; every check builds what it needs anyway
        b = Builder()
        try:
            _, _, missing = b.run(sorted(VARIANTS))
        finally:
            b.clean()
        print("built everything" + (" but " + ", ".join(missing) if missing else ""))
        sys.exit(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cases, case, only_build = None, None, False
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--cases": cases = int(a[i + 1]); i += 2
        elif a[i] == "--case": case = int(a[i + 1]); i += 2
        elif a[i] == "--seed": seed = int(a[i + 1]); i += 2
        else: die("unknown option " + a[i])
    if prop not in PLAN:
        die("unknown property " + prop)
    t0 = time.time()
    vq, vt, cq, ct = PLAN[prop]
    names = vq + (vt if tier == "thorough" else [])
    n = cases or (ct if tier == "thorough" else cq)
    b = Builder()
    work = None
    try:
        driver, bindir, missing = b.run(names)
        t1 = time.time()
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        work = tempfile.mkdtemp(prefix="mvl-mon.", dir=base)
        os.chmod(work, 0o755)
        replays = os.path.join(VERIF, "replays")
        procs = []
        nsh = 1 if case is not None else NPROC
        for s in range(nsh):
            w = os.path.join(work, "s%d" % s)
            cmd = [driver, "--prop", prop, "--seed", str(seed), "--cases", str(n), "--shard", "%d/%d" % (s, nsh), "--bin", bindir,
                   "--work", w, "--replays", replays, "--tier", tier, "--out", os.path.join(work, "r%d.json" % s)]
            if case is not None:
                cmd += ["--case", str(case)]
            procs.append((cmd, subprocess.Popen(cmd)))
        res = []
        for s, (cmd, p) in enumerate(procs):
            rc = p.wait()
            if rc:
                die("monitor shard %d ended with %d" % (s, rc))
            with open(os.path.join(work, "r%d.json" % s)) as f:
                res.append(json.load(f))
    finally:
        if work:
            shutil.rmtree(work, ignore_errors=True)
        b.clean()
        prune()
    counts, distinct, shapes, samples, viol, ev = {}, set(), set(), [], [], 0
    for r in res:
        ev += r["evaluations"]
        for k, v in r["counts"].items():
            if k.startswith("most-") or k.startswith("longest-") or k.startswith("deepest-"):
                counts[k] = max(counts.get(k, 0), v)
            else:
                counts[k] = counts.get(k, 0) + v
        distinct.update(r["distinct"])
        shapes.update(r["shapes"])
        samples += r["samples"]
        viol += r["violations"]
    known = known_findings()
    fresh, seen_known = [], {}
    for v in viol:
        for k in known:
            if k["property"] == prop and k["kind"] == v["kind"] and re.search(k["match"], v["detail"]):
                seen_known[k["id"]] = k
                break
        else:
            fresh.append(v)
    for k in known:
        if k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    meta = json.load(open(PLAN_FILE))[prop] if os.path.exists(PLAN_FILE) else {"rule": "", "assumptions": []}
    cov = {
        "evaluations": ev, "distinct_nontrivial": len(distinct), "rule": meta["rule"], "samples": samples[:8],
        "cases": n, "programs_built": sorted(set(names) - set(missing)), "observed": dict(sorted(counts.items())), "build_s": round(t1 - t0, 1),
    }
    if shapes:
        cov["distinct_event_sequences"] = len(shapes)
    if missing:
        cov["inconclusive"] = {k: v[-600:] for k, v in missing.items()}
    evd = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": meta["assumptions"],
           "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    if case is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evd, f, indent=1)
            f.write("\n")
    print("%s seed %d %s: %d executions, %d distinct non-trivial, %d violations, build %.1f s, total %.1f s" % (prop, seed, tier, ev, len(distinct), len(fresh), t1 - t0, time.time() - t0))
    for v in fresh:
        print("  %s: %s" % (v["kind"], v["detail"][:600].replace("\n", " | ")))
    for v in fresh:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(v["replay"], VERIF)))
    if missing:
        print("inconclusive: could not build " + ", ".join(missing))
    if not fresh and not distinct and case is None and not missing and cases is None:
        die("the monitors observed nothing")
    sys.exit(1 if fresh else 0)


if __name__ == "__main__":
    main()
