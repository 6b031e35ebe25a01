#!/usr/bin/env python3
"""tryout.py IDEAS.py : runs hand-written wrong variants, list IDEAS of (name, prop(s), file, old, new[, nth]), in scratch copies; prints caught/missed."""
import sys, os, shutil, subprocess, threading, queue, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns); ideas = ns["IDEAS"]; only = sys.argv[2:]
q = queue.Queue(); [q.put(i) for i in ideas if not only or i[0] in only]; lock = threading.Lock()
def w(n):
    repo, vd = f"/tmp/tryrepo{n}", f"/tmp/tryverif{n}"
    for d in (repo, vd): shutil.rmtree(d, ignore_errors=True)
    os.makedirs(repo); shutil.copytree("/repo/src", repo + "/src"); os.makedirs(vd)
    for x in ("check.py", "known_findings.txt", "properties.jsonl", "MANIFEST.json"): shutil.copy(f"{V}/{x}", vd)
    for x in ("drv", "lib", "tools"): shutil.copytree(f"{V}/{x}", f"{vd}/{x}")
    while True:
        try: i = q.get_nowait()
        except queue.Empty: break
        name, props, f, old, new = i[:5]; k = i[5] if len(i) > 5 else None
        p = f"{repo}/src/estd/{f}"; s = open(p).read()
        if s.count(old) == 0 or (s.count(old) > 1 and k is None): print("??", name, "matches", s.count(old), flush=True); continue
        a = -1
        for _ in range((k or 0) + 1): a = s.index(old, a + 1)
        open(p, "w").write(s[:a] + new + s[a + len(old):])
        res = []
        for pr in props.split():
            try: x = subprocess.run([sys.executable, "check.py", pr], cwd=vd, env=dict(os.environ, VF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=850); rc, o = x.returncode, x.stdout
            except subprocess.TimeoutExpired: rc, o = 99, "timeout"
            m = re.search(r"\n  (.*)", o); res.append((pr, rc, (m.group(1) if m else o[-150:])[:150] if rc else ""))
        open(p, "w").write(s)
        with lock: print("CAUGHT" if any(r[1] == 1 for r in res) else "MISSED", name, res, flush=True)
    for d in (repo, vd): shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=w, args=(n,)) for n in range(int(os.environ.get("W", "3")))]; [t.start() for t in ts]; [t.join() for t in ts]
