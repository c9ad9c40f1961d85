#!/usr/bin/env python3
"""Driver for one property check: build the harness from /repo's working tree, run its shards, judge, write evidence.

usage: run.py <property id> <quick|thorough> [--case N] [--seed S] [--keep]
exit 0: property held on everything explored (known findings are printed, not raised)
exit 1: VIOLATION line(s) printed
exit 2: no answer (build failure, watchdog, or the monitors observed too little)
"""
import fcntl, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "vp"))
import registry  # noqa: E402

PKGS = ["ov_core", "ov_init", "ov_msckf", "ov_eval"]
INC = ["-I/usr/include/eigen3", "-I/usr/include/opencv4"] + ["-I%s/%s/src" % (REPO, p) for p in PKGS] + ["-I%s/harness" % HERE]
DEFS = ["-DROS_AVAILABLE=0", "-DENABLE_ARUCO_TAGS=1"]
COMMON = ["-std=c++17", "-w", "-pthread", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    "plain": ("g++", ["-O1"], []),
    "asan": ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,null,pointer-overflow,object-size",
                     "-fno-sanitize-recover=undefined"], ["-fsanitize=address,undefined"]),
    "tsan": ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"], ["-fsanitize=thread"]),
}
OPENCV = ["core", "imgproc", "features2d", "video", "calib3d", "imgcodecs", "highgui", "videoio", "flann", "aruco", "objdetect"]
LIBS = {
    "cv": ["-lopencv_" + m for m in OPENCV],
    "ceres": ["-lceres", "-lglog"],
    "boost": ["-lboost_filesystem", "-lboost_system", "-lboost_date_time", "-lboost_thread"],
}


def log(*a):
    print(*a, flush=True)


def die(msg, code=2):
    log("NO-ANSWER: " + msg)
    sys.exit(code)


def all_sources():
    """every library source the no-ROS build compiles, relative to the repo (used when the short list does not link)"""
    out = []
    for p, dirs in [("ov_core", ["cpi", "feat", "sim", "track", "types", "utils", "cam"]),
                    ("ov_init", ["ceres", "dynamic", "init", "static", "sim", "utils"]),
                    ("ov_msckf", ["core", "sim", "state", "update"]), ("ov_eval", ["alignment", "calc", "utils"])]:
        for d in dirs:
            full = os.path.join(REPO, p, "src", d)
            if os.path.isdir(full):
                out += sorted("%s/src/%s/%s" % (p, d, f) for f in os.listdir(full) if f.endswith(".cpp"))
    return out


# the slowest translation units first, so that they do not end up alone at the end of the build
SLOW = ["Propagator", "DynamicInitializer", "StateHelper", "VioManager", "UpdaterHelper", "Factor_ImuCPIv1", "UpdaterSLAM", "CpiV2", "UpdaterMSCKF", "Simulator",
        "CpiV1", "UpdaterZeroVelocity"]


def build(units, bdir, name):
    """units: list of (check, variant, sources); one ninja run for all of them"""
    lines = ["ninja_required_version = 1.5", "builddir = %s" % bdir]
    for v in VARIANTS:
        lines += ["rule cxx_%s" % v, "  command = %s $flags -MD -MF $out.d -c $in -o $out" % VARIANTS[v][0], "  depfile = $out.d", "  deps = gcc",
                  "rule link_%s" % v, "  command = %s $in -o $out $libs" % VARIANTS[v][0]]
    seen, exes = {}, []
    # harness files first: they are usually the longest single compile; then the slowest library sources
    work = []
    for chk, variant, sources in units:
        cxx, cf, lf = VARIANTS[variant]
        cflags = COMMON + cf + DEFS + chk.get("cflags", []) + INC
        tag = "_".join([variant] + [re.sub(r"\W", "", f) for f in chk.get("cflags", [])])
        objs = []
        todo = [(-1, os.path.join(HERE, "harness", h), "h_" + h) for h in chk["harness"]]
        todo += [(next((i for i, k in enumerate(SLOW) if k in s), 99), os.path.join(REPO, s), s.replace("/", "_")) for s in sources]
        for pr, src, n in todo:
            o = os.path.join(bdir, "obj_" + tag, n + ".o")
            if o not in seen:
                seen[o] = 1
                work.append((pr if pr < 99 else 99, len(work), "build %s: cxx_%s %s\n  flags = %s" % (o, variant, src, " ".join(cflags))))
            objs.append(o)
        libs = []
        for k in chk.get("libs", ["cv", "boost"]):
            libs += LIBS.get(k, [k])
        exe = os.path.join(bdir, "bin_" + tag, chk["id"] + ("_" + re.sub(r"\W", "", chk["harness"][0]) if chk.get("own_binary") else ""))
        if exe not in seen:
            seen[exe] = 1
            work.append((1000, len(work), "build %s: link_%s %s\n  libs = %s" % (exe, variant, " ".join(objs), " ".join(["-pthread"] + lf + libs))))
        exes.append(exe)
    lines += [w[2] for w in sorted(work, key=lambda w: w[:2])]
    nf = os.path.join(bdir, "%s.ninja" % name)
    with open(nf, "w") as f:
        f.write("\n".join(lines) + "\n")
    r = subprocess.run(["ninja", "-f", nf, "-j", str(os.cpu_count() or 8)] + sorted(set(exes)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return exes, r.returncode, r.stdout


def build_retry(chks, bdir, name):
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(bdir, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        units = [(c, c.get("variant", "plain"), [s for s in c["sources"] if os.path.exists(os.path.join(REPO, s))]) for c in chks]
        exes, rc, out = build(units, bdir, name)
        if rc != 0 and ("undefined reference" in out or any(len(u[2]) != len(u[0]["sources"]) for u in units)):
            log("build: retrying with every library source")
            exes, rc, out = build([(dict(c, libs=["cv", "boost", "ceres"]), v, all_sources()) for c, v, _ in units], bdir, name)
        if rc != 0:
            log(out[-6000:])
            die("the harness or the code under test does not build")
        return exes, time.time() - t0


def tail(path, n=3000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            f.seek(max(0, f.tell() - n))
            return f.read().decode("utf8", "replace")
    except OSError:
        return ""


def main():
    args = sys.argv[1:]
    pid, tier = args[0], args[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if "--seed" in args: seed = int(args[args.index("--seed") + 1])
    if "--case" in args: only = int(args[args.index("--case") + 1])
    chk = dict(registry.CHECKS[pid], id=pid)
    t0 = time.time()
    bdir = os.environ.get("VP_BUILD", os.path.join(HERE, ".build"))
    results = {"counts": {}, "viol": [], "samples": [], "distinct": set(), "notes": []}
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    build_s = 0.0
    try:
        phases = []
        for ph in chk.get("phases", [{}]):
            c = dict(chk); c.update(ph)
            phases.append(c)
        exes, build_s = build_retry(phases, bdir, pid)
        for c, exe in zip(phases, exes):
            run_phase(c, exe, tier, seed, only, scratch, results)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    judge(chk, pid, tier, seed, results, time.time() - t0, build_s, only)


def sanitizer_key(text):
    """a stable key for a sanitizer report: kind + first two frames inside the project"""
    kind = None
    m = re.search(r"ERROR: (Address|Leak|Thread)Sanitizer:? ([\w-]+)", text) or re.search(r"WARNING: (Thread)Sanitizer: ([\w -]+)", text)
    if m: kind = m.group(1)[0].lower() + "san:" + m.group(2).strip().replace(" ", "-")
    else:
        m = re.search(r"([\w/.]+):(\d+):\d+: runtime error: ([^\n]{0,80})", text)
        if m: return "ubsan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"[-\d.e+]+", "N", m.group(3)).strip()[:60])
    if not kind: return None
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in ([\w:~<>]+)[^\n]*?/(ov_\w+/src/[\w/.]+)", text)
    fs = []
    for fn, f in frames:
        s = fn.split("<")[0]
        if s not in fs: fs.append(s)
        if len(fs) == 2: break
    return kind + ":" + "|".join(fs)


def run_phase(c, exe, tier, seed, only, scratch, results):
    nsh = 1 if only is not None else c.get("shards", os.cpu_count() or 8)
    wd = c.get("watchdog", {}).get(tier, 300 if tier == "quick" else 20000)
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OPENCV_OPENCL_RUNTIME="disabled", VP_REPO=REPO,
               ASAN_OPTIONS="abort_on_error=0:exitcode=97:detect_leaks=%d:detect_stack_use_after_return=1:allocator_may_return_null=1" % (1 if c.get("leaks") else 0),
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=97",
               TSAN_OPTIONS="halt_on_error=0:exitcode=0:history_size=4:report_signal_unsafe=0:log_path=%s/tsan:suppressions=%s/harness/tsan.supp" % (scratch, HERE))
    env.update(c.get("env", {}))
    name = c["harness"][0]
    if c.get("variant") == "asan":
        for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS"): env[k] += ":log_path=%s/asan" % scratch # also from forked children
    pre = []
    if c.get("valgrind"):
        pre = ["valgrind", "-q", "--error-exitcode=0", "--num-callers=30", "--leak-check=no", "--child-silent-after-fork=no", "--error-limit=no", "--log-file=%s/vg.%%p" % scratch]
    if c.get("scale"): env["VP_SCALE"] = str(c["scale"].get(tier, 1) if isinstance(c["scale"], dict) else c["scale"])
    nviol = len(results["viol"])
    def start(i):
        base = os.path.join(scratch, "%s_%s_%d" % (name, c.get("mode", "m"), i))
        sd = base + ".d"
        os.makedirs(sd, exist_ok=True)
        for f in (base + ".jsonl", base + ".cur"):
            if os.path.exists(f): os.unlink(f)
        cmd = pre + [exe, "--seed", str(seed), "--shard", str(i), "--nshards", str(nsh), "--tier", tier, "--out", base + ".jsonl", "--cur", base + ".cur", "--scratch", sd]
        if c.get("mode"): cmd += ["--mode", c["mode"]]
        if only is not None: cmd += ["--case", str(only)]
        so, se = open(base + ".stdout", "wb"), open(base + ".stderr", "wb")
        p = subprocess.Popen(cmd, stdout=so, stderr=se, env=env, cwd=sd, start_new_session=True)
        return [p, base, time.time(), i]
    par = c.get("parallel", os.cpu_count() or 8)
    queue, running, hung = list(range(nsh)), [], {}
    while queue or running:
        while queue and len(running) < par:
            running.append(start(queue.pop(0)))
        time.sleep(0.05)
        for r in list(running):
            p, base, ts, i = r
            rc = p.poll()
            if rc is None:
                if time.time() - ts > wd:
                    os.killpg(p.pid, signal.SIGKILL); p.wait()
                    running.remove(r)
                    hung[i] = hung.get(i, 0) + 1
                    if hung[i] == 1: queue.append(i)      # once more before anything is said about a hang
                    else: collect(c, base, None, results)
                continue
            running.remove(r)
            collect(c, base, rc, results)
    for f in sorted(os.listdir(scratch)):
        if f.startswith("tsan."):
            txt = open(os.path.join(scratch, f), errors="replace").read()
            for blk in txt.split("=================="):
                if not re.search(r"(WARNING|ERROR|FATAL): ThreadSanitizer", blk): continue
                if re.search("ThreadSanitizer: data race", blk) and tsan_key(blk).endswith("data-race:"): # both sides inside libraries
                    results["counts"]["library_reports"] = results["counts"].get("library_reports", 0) + 1
                    continue
                results["counts"]["tsan_reports"] = results["counts"].get("tsan_reports", 0) + 1
                results["viol"].append({"key": tsan_key(blk), "detail": blk.strip()[:6000], "case": -1, "seed": seed})
            os.unlink(os.path.join(scratch, f))
        if f.startswith("vg."):
            for key, blk in valgrind_reports(open(os.path.join(scratch, f), errors="replace").read()):
                results["counts"]["memcheck_reports"] = results["counts"].get("memcheck_reports", 0) + 1
                results["viol"].append({"key": key, "detail": "%s\n%s" % (name, blk[:6000]), "case": -1, "seed": seed})
            os.unlink(os.path.join(scratch, f))
        if f.startswith("asan."):
            txt = open(os.path.join(scratch, f), errors="replace").read()
            key = sanitizer_key(txt)
            if key:
                results["counts"]["sanitizer_reports"] = results["counts"].get("sanitizer_reports", 0) + 1
                results["viol"].append({"key": key, "detail": "%s\n%s" % (name, txt.strip()[:6000]), "case": -1, "seed": seed})
            os.unlink(os.path.join(scratch, f))
    if c.get("only_keys"): # what another check decides is not this check's verdict
        new = results["viol"][nviol:]
        keep = [v for v in new if re.match(c["only_keys"], v["key"])]
        results["counts"]["left to other checks"] = results["counts"].get("left to other checks", 0) + len(new) - len(keep)
        results["viol"][nviol:] = keep


def valgrind_reports(txt):
    """(key, text) of each memcheck error raised in project code, or in a header or C library function it calls directly"""
    out, blk = [], []
    for line in txt.splitlines() + ["==0== "]:
        line = re.sub(r"^==\d+== ?", "", line)
        if line.strip(): blk.append(line); continue
        head, frames = (blk[0] if blk else ""), re.findall(r"(?:at|by) 0x[0-9A-F]+: (.*?) \((?:in )?([^()]*)\)$", "\n".join(blk), re.M)
        if re.search(r"uninitialised|Invalid (read|write|free)|Mismatched free|overlap", head) and frames:
            own = [re.split(r"[(<]", fn)[0] for fn, where in frames if re.match(r"(.* )?ov_(core|init|msckf|eval)::", fn)]
            if own and not re.search(r"lib(opencv|ceres|tbb|lapack|openblas|blas)", frames[0][1]):
                out.append(("memcheck:%s:%s" % (re.sub(r" of size \d+|\W+", "-", head.strip())[:40], "|".join(dict.fromkeys(own[:2]))), "\n".join(blk)))
        blk = []
    return out


def tsan_key(blk):
    """race key: for both sides the innermost project frame and outermost project entry, order independent, no line numbers"""
    kind = re.search(r"ThreadSanitizer: ([\w -]+?)(?: \(|\n|$)", blk)
    kind = kind.group(1).strip().replace(" ", "-") if kind else "report"
    sides = []
    for part in re.split(r"\n\s*\n", blk):
        if not re.search(r"(Read|Write|read|write) of size|Mutex M|Thread T\d+ .*tried|acquired", part): continue
        fr = re.findall(r"#\d+ ([\w:~]+)[^\n]*?/ov_\w+/src/", part)
        fr = [f for f in fr if f.startswith("ov_")]
        if fr: sides.append(fr[0])
    if kind == "data-race": sides = sides[:2]
    return "tsan:%s:%s" % (kind, " <-> ".join(sorted(set(sides))))


def collect(c, base, rc, results):
    cur, done = -1, False
    try: cur = int(open(base + ".cur").read().strip() or -1)
    except Exception: pass
    if os.path.exists(base + ".jsonl"):
        for line in open(base + ".jsonl", errors="replace"):
            try: r = json.loads(line)
            except ValueError: continue
            t = r.get("t")
            if t == "count": results["counts"][r["k"]] = results["counts"].get(r["k"], 0) + r["n"]
            elif t == "max": results["counts"][r["k"]] = max(results["counts"].get(r["k"], r["n"]), r["n"])
            elif t == "viol": results["viol"].append(r)
            elif t == "sample": results["samples"].append(r["v"])
            elif t == "distinct": results["distinct"].update(r["h"])
            elif t == "inconclusive": results["notes"].append(r["v"])
            elif t == "done": done = True
    if rc is None:
        results["viol"].append({"key": "hang", "detail": "shard did not finish within its watchdog, twice; case %d" % cur, "case": cur})
    elif rc != 0 or not done:
        if rc == -9:
            results["notes"].append("a shard was killed (SIGKILL) at case %d" % cur)
            return
        err = tail(base + ".stderr", 6000)
        key = sanitizer_key(tail(base + ".stderr", 20000))
        if key is None:
            m = re.search(r"([\w./]+):(\d+): .*?Assertion .(.{0,100}).* failed", err) or re.search(r"Assertion failed: (.{0,100})", err)
            what = ("exit(%d)" % rc) if rc >= 0 else ("signal %d" % -rc)
            if m: what += ":assert:" + re.sub(r"\s+", " ", m.group(m.lastindex)).strip()[:80]
            key = "crash:" + what
        results["viol"].append({"key": key, "detail": "process ended abnormally (rc=%s) in case %d\n%s\n%s" % (rc, cur, tail(base + ".stdout", 600), err), "case": cur})


def judge(chk, pid, tier, seed, R, wall, build_s, only):
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == pid and k.get("status") == "known"]
    fresh, seen = {}, {}
    for v in R["viol"]:
        k = next((k for k in known if re.fullmatch(k["key"], v["key"])), None)
        if k: seen[k["id"]] = seen.get(k["id"], 0) + 1
        else: fresh.setdefault(v["key"], []).append(v)
    for k in known:
        log("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (pid, k["what"], seen.get(k["id"], 0)))
    short = []
    if only is None:
        for k, n in chk.get("require", {}).items():
            n = n.get(tier, 0) if isinstance(n, dict) else n
            if R["counts"].get(k, 0) < n: short.append("%s: %d < %d" % (k, R["counts"].get(k, 0), n))
        # statements about the whole run: (name, numerator, denominator, lowest, highest, fewest)
        for name, num, den, lo, hi, few in chk.get("rates", []):
            a, b = R["counts"].get(num, 0), R["counts"].get(den, 0)
            if b < few: short.append("%s: %d < %d" % (den, b, few))
            elif not lo <= a / b <= hi:
                fresh.setdefault("rate:" + name, []).append({"detail": "%s: %d of %d = %.4f, expected between %g and %g" % (name, a, b, a / b, lo, hi), "case": -1})
            else: R["counts"]["rate " + name] = round(a / b, 5)
    evals = int(R["counts"].get(chk.get("eval_counter", "checks"), 0))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(R["distinct"]), "rule": chk["rule"],
                       "samples": (R["samples"][:12] or ["(none)"]), "observed": {k: R["counts"][k] for k in sorted(R["counts"])}},
          "assumptions": chk.get("assumptions", []), "wall_s": round(wall, 1), "build_s": round(build_s, 1),
          "known_findings_seen": seen, "violations": sum(len(v) for v in fresh.values())}
    if R["notes"]: ev["notes"] = R["notes"][:20]
    if only is None:
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    log("%s %s seed=%d: %d evaluations, %d distinct states, build %.0fs, total %.0fs" % (pid, tier, seed, evals, len(R["distinct"]), build_s, wall))
    for k in sorted(R["counts"]): log("  observed %-44s %s" % (k, R["counts"][k]))
    if fresh:
        rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
        for n, (key, vs) in enumerate(sorted(fresh.items(), key=lambda kv: -len(kv[1]))):
            v = vs[0]
            path = os.path.join(rd, "%s_%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump({"property": pid, "key": key, "times": len(vs), "tier": tier, "seed": seed, "case": v.get("case", -1), "detail": v["detail"],
                           "replay": "VERIF_SEED=%d python3 %s/vp/run.py %s %s --case %s" % (seed, HERE, pid, tier, v.get("case", -1))}, f, indent=1)
            if n < 12:
                log("VIOLATION property=%s replay=%s key=%s (%d times)" % (pid, path, key, len(vs)))
                log("   " + v["detail"][:700].replace("\n", "\n   "))
        sys.exit(1)
    if short: die("the monitors observed too little: " + "; ".join(short))
    if R["notes"] and only is None and any("killed" in n for n in R["notes"]): die("; ".join(R["notes"][:3]))
    log("OK property=%s" % pid)
    sys.exit(0)


if __name__ == "__main__":
    main()
