#!/usr/bin/env python3
"""cov.py [Cxx...] : line coverage of src/estd by the quick workloads (gcc --coverage); prints, per file, the lines with a
statement that no workload executes (executable lines with count 0, and 'return'/call lines of templates never instantiated)."""
import sys, os, json, subprocess, glob, shutil, gzip, re, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import check
check.VARIANTS["cov"] = (["g++"], ["-std=gnu++17", "-O0", "--coverage", "-fprofile-abs-path"])
W = "/tmp/covwork"; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
pids = sys.argv[1:] or sorted(os.listdir(V + "/drv"))
cov = {}
def one(pid):
    conf = json.load(open(f"{V}/drv/{pid}/conf.json")); work = f"{W}/{pid}"; os.makedirs(work)
    exe, broken = check.build(pid, conf, "cov", work, ["-fsanitize=address"] if pid == "C28" else [])
    if not exe: return pid, "no exe " + str(broken)[:300], {}
    r = subprocess.run([exe, "--seed", "1", "--cases", str(conf["cases"]["quick"]), "--shard", "0", "--shards", "1", "--out", work + "/o", "--prog", work + "/p", "--from-group", "0", "--from-index", "0", "--cpu", "700"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800)
    res = {}
    for g in glob.glob(f"{work}/cov/*.gcda"):
        x = subprocess.run(["gcov", "-j", "-t", g], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
        for l in x.splitlines():
            try: j = json.loads(l)
            except Exception: continue
            for f in j["files"]:
                if "/src/estd/" in f["file"]:
                    d = res.setdefault(os.path.realpath(f["file"]), {})
                    for ln in f["lines"]: d[ln["line_number"]] = d.get(ln["line_number"], 0) + ln["count"]
    shutil.rmtree(work)
    return pid, r.returncode, res
with cf.ThreadPoolExecutor(int(os.environ.get("W", "4"))) as ex:
    for pid, rc, res in ex.map(one, pids):
        print(pid, rc, len(res), flush=True)
        for f, d in res.items():
            e = cov.setdefault(f, {})
            for k, v in d.items(): e[k] = e.get(k, 0) + v
json.dump(cov, open("/tmp/cov.json", "w"))
shutil.rmtree(W, ignore_errors=True)
