#!/usr/bin/env python3
"""check.py <property> [--replay FILE]

Builds the drivers of one property from /repo's working tree with sanitizers, runs them over all
cores, judges what the monitors observed, writes evidence/<property>.json.

exit 0: property held on everything explored.  exit 1: a VIOLATION line was printed.
exit 2: the check itself could not give an answer (build failure, nothing observed).
"""
import sys, os, json, subprocess, struct, time, shutil, tempfile, concurrent.futures as cf, re

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CORES = int(os.environ.get("VF_CORES", str(os.cpu_count() or 4)))

BASE = ["-I", SRC, "-I", os.path.join(VERIF, "lib"), "-DFEATURE_ESTD_COMPILE_VERBOSITY=3",
        "-DFEATURE_ESTD_COMPILE_STRICTNESS=4", "-DUNIT_TESTING", "-w", "-g1", "-fno-omit-frame-pointer",
        "-pthread"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
# name -> (compiler list, flags)
VARIANTS = {
    "gcc17":   (["g++"], ["-std=gnu++17", "-O1"] + ASAN),
    "gcc11":   (["g++"], ["-std=gnu++11", "-O1"] + ASAN),
    "gcc20":   (["g++"], ["-std=gnu++20", "-O1"] + ASAN),
    "gcc17o2": (["g++"], ["-std=gnu++17", "-O2"] + ASAN),
    "clang17": (["clang++"], ["-std=gnu++17", "-O1"] + ASAN),
    "clang20": (["clang++"], ["-std=gnu++20", "-O1"] + ASAN),
    "tsan":    (["g++"], ["-std=gnu++17", "-O1", "-fsanitize=thread"]),
    "tsanclang": (["clang++"], ["-std=gnu++17", "-O1", "-fsanitize=thread"]),
    "plain":   (["g++"], ["-std=gnu++17", "-O2"]),
}
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:detect_stack_use_after_return=1:strict_init_order=1:"
    "max_allocation_size_mb=2048:hard_rss_limit_mb=3000:abort_on_error=0:exitcode=76:"
    "detect_container_overflow=1:handle_abort=1:allocator_may_return_null=0:new_delete_type_mismatch=1")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=76"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=76:second_deadlock_stack=1:report_signal_unsafe=0"
ENV["MALLOC_PERTURB_"] = "165"


class BuildError(Exception): pass

def compile_one(args):
    cc, flags, src, obj = args
    if src.endswith(".c"):
        cc = "clang" if "clang" in cc else "gcc"
        flags = [f for f in flags if not f.startswith("-std=")]
    r = subprocess.run([cc] + flags + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=800)
    return src, r.returncode, r.stdout

def build(pid, conf, variant, work, extra=()):
    cc, vflags = VARIANTS[variant]
    cc = cc[0]; vflags = vflags + list(extra)
    d = os.path.join(VERIF, "drv", pid)
    flags = BASE + vflags + conf.get("flags", [])
    skip = conf.get("skip", {}).get(variant, [])
    srcs = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp") and f not in skip]
    srcs.append(os.path.join(VERIF, "lib", "vf.cpp"))
    srcs += [os.path.join(SRC, s) for s in conf.get("repo_sources", [])]
    od = os.path.join(work, variant); os.makedirs(od)
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(od, re.sub(r"\W", "_", os.path.relpath(s, "/")) + ".o")
        objs.append(o); jobs.append((cc, flags + (conf.get("driver_flags", []) if s.startswith(d) else []) + conf.get("file_flags", {}).get(os.path.basename(s), []), s, o))
    broken = []
    with cf.ThreadPoolExecutor(CORES) as ex:
        for (src, rc, outp), job in zip(ex.map(compile_one, jobs), jobs):
            if rc:
                text = "\n".join([l[:400] for l in outp.splitlines() if "error" in l or "/verif/" in l][:30])
                first = re.search(r"[^\n]*:\d+:\d+: error: [^\n]*", outp)
                # the monitors' uses of the interface compile on the library as published; a rejected use
                # is an observation about the library, anything else (killed, disk full, ...) is not
                if rc != 1 or not first or not src.startswith(d) or re.search("internal compiler error|No space left|Killed|cannot allocate", outp):
                    raise BuildError("compiling %s (%s) failed:\n%s" % (src, variant, text or outp[-2000:]))
                broken.append((os.path.basename(src), first.group(0)[:300], text)); objs.remove(job[3])
    if broken and len(objs) == len(conf.get("repo_sources", [])) + 1: return None, broken
    exe = os.path.join(od, "driver")
    r = subprocess.run([cc] + ["-pthread", "-g1"] + [f for f in vflags if f != "-w"] + objs + ["-o", exe] + conf.get("ldflags", []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode and broken: return None, broken
    if r.returncode: raise BuildError("link failed:\n" + r.stdout[-4000:])
    for o in objs: os.unlink(o)
    return exe, broken

def run(cmd, timeout):
    try:
        r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           errors="replace", text=True, cwd=os.path.dirname(cmd[0]))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return 77, (o.decode("utf8", "replace") if isinstance(o, bytes) else o) + "\nVF-HANG: wall clock\n"

def summary(rc, text):
    m = re.search(r"(ERROR: \w+Sanitizer: [^\n]{0,160}|runtime error: [^\n]{0,200}|WARNING: ThreadSanitizer: [^\n]{0,120}|VF-HANG[^\n]*|Assertion [^\n]{0,160}|terminate called[^\n]{0,200})", text)
    loc = re.search(r"#\d+ [^\n]*?(/repo/src/[^\s:]+:\d+|%s/[^\s:]+:\d+)" % re.escape(SRC), text)
    return "exit %s: %s%s" % (rc, m.group(1) if m else text[-200:].replace("\n", " "), " at " + loc.group(1) if loc else "")

def shard(exe, seed, cases, i, n, od, timeout, cpu):
    """One worker: runs its share, restarting after a crash."""
    res = {"evaluations": 0, "events": {}, "samples": [], "viol": [], "cases": set(), "states": set()}
    fg, fi, tries = 0, 0, 0
    while True:
        out = os.path.join(od, "o%d_%d" % (i, tries)); prog = os.path.join(od, "p%d_%d" % (i, tries))
        cmd = [exe, "--seed", str(seed), "--cases", str(cases), "--shard", str(i), "--shards", str(n),
               "--out", out, "--prog", prog, "--from-group", str(fg), "--from-index", str(fi), "--cpu", str(cpu)]
        rc, text = run(cmd, timeout)
        if os.path.exists(out):
            j = json.load(open(out))
            res["evaluations"] += j["evaluations"]
            for k, v in j["events"].items(): res["events"][k] = res["events"].get(k, 0) + v
            res["samples"] += j["samples"]
            for v in j["violations"]: res["viol"].append((v["group"], v["index"], v["msg"], v["trace"]))
            b = open(out + ".set", "rb").read()
            k = struct.unpack_from("<Q", b, 0)[0]
            res["cases"].update(struct.unpack_from("<%dQ" % k, b, 8))
            k2 = struct.unpack_from("<Q", b, 8 + 8 * k)[0]
            res["states"].update(struct.unpack_from("<%dQ" % k2, b, 16 + 8 * k))
        if rc in (0, 10): return res
        if not os.path.exists(prog):
            res["viol"].append((None, 0, "driver died before the first case: " + summary(rc, text), text[-3000:]))
            return res
        g, idx, running = struct.unpack("<QQQ", open(prog, "rb").read(24))
        res["viol"].append((g, idx, "crash: " + summary(rc, text), text[-4000:]))
        tries += 1
        if tries >= 2: return res
        fg, fi = g, idx + n

def mt_dir(pid, variant, work, seed, cases, threads, cpu):
    """C27: another property's drivers, built so that several threads run the same cases at once."""
    conf = json.load(open(os.path.join(VERIF, "drv", pid, "conf.json")))
    w = os.path.join(work, "mt-%s-%s" % (variant, pid)); os.makedirs(w)
    exe, broken = build(pid, conf, variant, w, ["-DVF_MT"])
    if not exe: return pid, exe, broken, [], None
    lst = subprocess.run([exe, "--list"], env=ENV, capture_output=True, text=True)
    if lst.returncode:
        return pid, exe, broken, [], {"viol": [(None, 0, "driver cannot start: " + summary(lst.returncode, lst.stderr), lst.stderr[-3000:])], "evaluations": 0, "events": {}, "samples": [], "cases": set(), "states": set()}
    gn = [l.split()[1] for l in lst.stdout.splitlines() if l.startswith("group ")]
    return pid, exe, broken, gn, shard(exe, seed, cases, 0, 1, w, 600, cpu)

def load_known(pid):
    k = {}
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid: k[m.group(2)] = m.group(3)
    return k

def main():
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" or "--thorough" in sys.argv else "quick"
    t0 = time.time()
    conf = json.load(open(os.path.join(VERIF, "drv", pid, "conf.json")))
    variants = conf.get(tier + "_variants", conf.get("variants", ["gcc17"] if tier == "quick" else ["gcc17", "clang17", "gcc17o2"]))
    cases = conf["cases"][tier]
    outdir = os.path.join(VERIF, "build", pid); os.makedirs(outdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir=os.path.join(VERIF, "build"))
    known = load_known(pid)
    ev, samples, evals, allcases, states = {}, [], 0, set(), set()
    viols, knownhit, per_variant = [], [], {}
    rc_final = 0
    try:
        exes = {}
        if "--replay" in sys.argv:
            rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            src = rep.get("source", pid)
            exe, broken = build(src, json.load(open(os.path.join(VERIF, "drv", src, "conf.json"))), rep["variant"], work, ["-DVF_MT"] if src != pid else [])
            if broken: print("not accepted by the compiler any more:", *broken)
            if not exe or (broken and not rep["args"]): return 1
            cmd = [exe, "--verbose"] + rep["args"]
            print("replaying:", " ".join(cmd[1:]))
            rc, text = run(cmd, 600)
            print(text[-12000:]); print("driver exit", rc)
            return 1 if rc else 0
        for v in variants:
            exe, broken = build(pid, conf, v, work); exes[v] = exe
            for (f, first, text) in broken:
                viols.append((v, "interface:" + f, [], "a use of the published interface is no longer accepted: " + first, text))
            if not exe: continue
            lst = subprocess.run([exe, "--list"], env=ENV, capture_output=True, text=True)
            if lst.returncode:
                # static initialisation of the code under test fails
                viols.append((v, "startup", [], "driver cannot start: " + summary(lst.returncode, lst.stderr), lst.stderr[-3000:])); continue
            gnames = [l.split()[1] for l in lst.stdout.splitlines() if l.startswith("group ")]
            pnames = [l.split()[1] for l in lst.stdout.splitlines() if l.startswith("probe ")]
            od = os.path.join(work, "run-" + v); os.makedirs(od)
            nsh = conf.get("shards", CORES)
            tmo = conf.get("timeout", {}).get(tier, 400 if tier == "quick" else 3000)
            cpu = conf.get("cpu", 20)
            def probe(name):
                rc, text = run([exe, "--probe", name, "--verbose", "--out", os.path.join(od, "probe-" + name), "--cpu", str(cpu)], 120)
                if rc == 77:    # a hang must repeat
                    rc, text = run([exe, "--probe", name, "--verbose", "--cpu", str(cpu)], 240)
                return name, rc, text
            vevals = 0
            with cf.ThreadPoolExecutor(CORES) as ex:
                futs = [ex.submit(shard, exe, seed, cases, i, nsh, od, tmo, cpu) for i in range(nsh)]
                pf = [ex.submit(probe, n) for n in pnames]
                for f in futs:
                    r = f.result(); evals += r["evaluations"]; vevals += r["evaluations"]
                    for k, n in r["events"].items(): ev[k] = ev.get(k, 0) + n
                    samples += r["samples"]; allcases |= r["cases"]; states |= r["states"]
                    for (g, idx, msg, tr) in r["viol"]:
                        if g is None: viols.append((v, "startup", [], msg, tr)); continue
                        gn = gnames[g] if isinstance(g, int) else g
                        viols.append((v, "%s" % gn, ["--seed", str(seed), "--group", gn, "--case", str(idx)], msg, tr))
                for f in pf:
                    name, rc, text = f.result(); evals += 1
                    ev["probes run"] = ev.get("probes run", 0) + 1
                    if rc:
                        m = re.search(r"FAIL ([^\n]*)", text)
                        msg = m.group(1) if m and rc == 10 else summary(rc, text)
                        key = "probe:" + name
                        if key in known: knownhit.append((key, v, msg))
                        else: viols.append((v, key, ["--probe", name], msg, text[-4000:]))
            if conf.get("mt_of"):
                with cf.ThreadPoolExecutor(max(2, CORES // 2)) as ex:
                    for src, exe, broken, gnames, r in ex.map(lambda d: mt_dir(d, v, work, seed, conf["mt_cases"][tier], 3, cpu), conf["mt_of"]):
                        exes[v, src] = exe
                        for (f, first, text) in broken:
                            viols.append((v, "interface:%s/%s" % (src, f), [], "a use of the published interface is no longer accepted: " + first, text))
                        if not r: continue
                        evals += r["evaluations"]; vevals += r["evaluations"]
                        for k, n in r["events"].items():
                            if k.startswith("mt: "): ev[k] = ev.get(k, 0) + n; ev[k + " (%s)" % src] = n
                        samples += ["%s/%s" % (src, s) for s in r["samples"]][:1]
                        allcases |= set(hash((src, k)) for k in r["cases"])
                        for (g, idx, msg, tr) in r["viol"]:
                            if g is None: viols.append((v, "startup:" + src, [], msg, tr)); continue
                            gn = gnames[g] if isinstance(g, int) else g
                            viols.append((v, "%s/%s" % (src, gn), ["--seed", str(seed), "--group", gn, "--case", str(idx)], msg, tr))
            per_variant[v] = vevals
        # hangs and crashes of a shard have to repeat from a fresh process before they count
        def confirm(viol):
            v, key, args, msg, tr = viol
            if args and ("HANG" in msg or "crash" in msg):
                own = exes[v, key.split("/")[0]] if (v, key.split("/")[0]) in exes else exes[v]
                rc, text = run([own, "--verbose", "--cpu", str(conf.get("cpu", 20) * 2)] + args, 300)
                if rc == 0 and "HANG" in msg: return None
                if rc: tr = text[-5000:]
                if rc and rc != 10: msg = "crash: " + summary(rc, text)
            return v, key, args, msg, tr
        # one look per group and kind of symptom first, and no more than the report can use
        kinds, later = {}, []
        for x in viols:
            k = (x[0], x[1], re.sub(r"[0-9]+", "", x[3])[:24])
            if k in kinds: later.append(x)
            else: kinds[k] = x
        first = list(kinds.values())
        first.sort(key=lambda x: "HANG" in x[3])
        with cf.ThreadPoolExecutor(CORES) as ex:
            confirmed = [x for x in ex.map(confirm, first[:16]) if x]
            if not confirmed: confirmed = [x for x in ex.map(confirm, (first[16:] + later)[:16]) if x]
        for key in sorted(set(k for k, _, _ in knownhit)):
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[key], key))
        seen = set()
        for n, (v, key, args, msg, tr) in enumerate(confirmed):
            sig = (key, re.sub(r'[0-9]+', '', msg)[:40], msg.split(': ')[0])
            if sig in seen: continue
            seen.add(sig)
            rp = os.path.join(outdir, "replay-%d.json" % n)
            json.dump({"property": pid, "variant": v, "source": key.split("/")[0] if (v, key.split("/")[0]) in exes else pid, "args": args, "key": key, "message": msg, "trace": tr,
                       "how": "python3 check.py %s --replay %s" % (pid, rp)}, open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  [%s] %s: %s" % (v, key, msg[:400]))
            if len(seen) >= 8: break
        if confirmed: rc_final = 1
        need = conf.get("require_events", [])
        missing = [e for e in need if not ev.get(e)]
        if rc_final == 0 and (evals == 0 or len(allcases) < 2 or missing):
            print("ERROR: the monitors observed too little (evaluations=%d distinct=%d missing=%s)" % (evals, len(allcases), missing))
            rc_final = 2
    except BuildError as e:
        print("ERROR: " + str(e)); rc_final = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if rc_final == 2: return 2
    import random
    rnd = random.Random(seed); rnd.shuffle(samples)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": len(allcases), "states": len(states),
            "rule": conf["rule"], "samples": samples[:6], "events_observed": ev,
            "evaluations_per_build": per_variant, "known_findings_seen": sorted(set(k for k, _, _ in knownhit))},
        "assumptions": conf.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if rc_final else 0},
        open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if rc_final == 0:
        print("OK property=%s evaluations=%d distinct=%d states=%d wall=%.1fs" % (pid, evals, len(allcases), len(states), time.time() - t0))
    return rc_final

if __name__ == "__main__": sys.exit(main())
