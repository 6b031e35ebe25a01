#!/usr/bin/env python3
"""Mutation campaign: mutate.py OUT.jsonl N SEED [file-substring ...]
Applies mechanical one-token changes to the library in scratch copies, runs the checks anchored at the changed file
until one objects, and writes one JSON line per mutant (killed by which check / survived / did not compile)."""
import sys, os, re, json, random, shutil, subprocess, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); only = sys.argv[4:]
WORKERS = int(os.environ.get("MUT_WORKERS", "3"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
ROOT = "/repo/src/estd"
EXTRA = [  # (substring, props) for files no property anchors, or more checks for those that are anchored
 ("impl/dynamic_array", ["C01", "C04", "C28"]), ("internal/dynamic_array", ["C01", "C04"]), ("runtime_array", ["C01", "C03", "C04", "C02"]), ("internal/string.h", ["C01", "C02"]), ("traits/string", ["C02", "C01"]),
 ("layer1/string", ["C01"]), ("layer2/string", ["C01"]), ("layer3/string", ["C01"]), ("string_view", ["C02"]), ("string_convert", ["C16"]), ("to_string", ["C16"]), ("charconv", ["C16", "C17"]), ("raise_and_add", ["C16", "C17"]), ("cctype", ["C17", "C16"]),
 ("allocators/fixed", ["C01", "C26", "C04"]), ("allocators/handle_desc", ["C26", "C01"]), ("impl/handle_desc", ["C26", "C01"]), ("allocators/generic", ["C26"]), ("allocator_traits", ["C26", "C01"]), ("memory/v1", ["C26"]), ("exp/memory", ["C26"]),
 ("locking_accessor", ["C04", "C26", "C05"]), ("traditional_accessor", ["C04", "C05"]), ("container/accessor", ["C04", "C05", "C01"]), ("container/iterator", ["C04", "C05", "C01"]), ("handle_with_offset", ["C04", "C26", "C01"]), ("container/unordered", ["C08"]), ("map.h", ["C08"]), ("starts_with", ["C02"]), ("ends_with", ["C02"]), ("specializer", ["C26", "C04"]),
 ("value_evaporator", ["C12", "C09", "C10"]), ("internal/array", ["C03", "C12"]), ("array.h", ["C03"]), ("legacy/array", ["C03"]), ("span.h", ["C03"]), ("internal/buffer", ["C03"]), ("vector.h", ["C04"]), ("queue.h", ["C05", "C06"]), ("stack.h", ["C05"]), ("deque.h", ["C05"]), ("priority_queue", ["C06"]), ("heap.h", ["C06"]),
 ("algorithm", ["C07"]), ("numeric.h", ["C07"]), ("utility", ["C07", "C12"]), ("iterator", ["C07", "C19", "C20", "C15"]), ("optional", ["C09"]), ("variant", ["C10"]), ("expected", ["C11"]), ("tuple", ["C12"]), ("variadic", ["C12", "C10"]), ("functional", ["C13", "C24"]), ("invoke", ["C13"]), ("memory.h", ["C14"]), ("linked_ref", ["C14"]), ("unique_handle", ["C14"]), ("obsolete/functional", ["C13"]),
 ("list", ["C15"]), ("locale", ["C17", "C18"]), ("chooser", ["C17"]), ("ios", ["C18", "C20"]), ("ostream", ["C18"]), ("iomanip", ["C18"]), ("istream", ["C20"]), ("streambuf", ["C19", "C20", "C18"]), ("sstream", ["C19", "C18"]), ("bip", ["C21", "C19"]), ("chrono", ["C22"]), ("common_type", ["C22", "C24"]), ("ratio", ["C23"]), ("units", ["C23"]), ("promoted", ["C23"]),
 ("hash", ["C24"]), ("bit.h", ["C24"]), ("flags.h", ["C24"]), ("limits", ["C24"]), ("type_traits", ["C24"]), ("cstddef", ["C24"]), ("enum.h", ["C24", "C18"]), ("mutex", ["C25"]), ("semaphore", ["C25"]), ("thread", ["C25"]), ("observer", ["C13"]), ("deduce_fixed", ["C01", "C12"]), ("initializer_list", ["C07", "C04"]), ("char_traits", ["C02", "C01"]),
]
SKIP = ("port/arch", "port/toolchain", "port/rpi", "port/asf", "port/vdk", "port/avr", "/c++03", "exp/pgm", "obsolete/", "unused", "/fwd/", "/feature/", "port/freertos", "port/esp", "identify_platform", "macro", "port/arduino")
def props_for(rel):
    r = []
    for sub, ps in EXTRA:
        if sub in rel: r += [p for p in ps if p not in r]
    for p in props:
        if rel in json.dumps(p["anchors"]) and p["id"] not in r and p["id"] not in ("C27", "C28"): r.append(p["id"])
    return r[:5]
RULES = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r"\+\+", "--"), (r"--", "++"), (r" \+= ", " -= "), (r" -= ", " += "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r" \* ", " / "), (r" / ", " * "), (r" \| ", " & "), (r" & ", " | "), (r" >> ", " << "), (r" % ", " / "), (r"if\(!", "if("), (r"if\((?!!)(?!constexpr)", "if(!("), (r"return !", "return "), (r" \? ", None), (r"std::move\((\w+)\)", None), (r"STMT", "")]
def sites(path):
    L = open(path, errors="replace").read().split("\n"); off = 0; com = False; res = []
    for i, l in enumerate(L):
        s = l.strip()
        if com: 
            if "*/" in s: com = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: com = True
            continue
        if re.match(r"#\s*if\s+0\b", s) or re.match(r"#\s*if.*(UNUSED|OLD|OBSOLETE|__cpp_lib_|AVR|ARDUINO|FREERTOS)", s): off += 1; 
        elif off and re.match(r"#\s*if", s): off += 1
        elif off and re.match(r"#\s*endif", s): off -= 1
        if off or s.startswith(("#", "//", "template", "static_assert", "typedef", "using ", "namespace", "ASSERT", "class ", "struct ", "friend", "*")) or not s: continue
        code = l.split("//")[0]
        for k, (pat, rep) in enumerate(RULES):
            if pat == "STMT":
                if re.match(r"^\s+[\w:\*\(][^={}]*(\([^;]*\)|\+\+|--|=[^;]*);\s*$", code) and not re.match(r"^\s*(return|using|typedef|break|static|const|friend|virtual|explicit|inline|template|ESTD|auto|typename)\b", code) and not re.match(r"^\s+[\w:<>]+&?\*? +&?\*?\w+(\(|;| =|\{)", code): res.append((i, k, 0))
                continue
            if rep is None: continue
            if pat == r" & " or pat == r" \* ":
                if re.search(r"operator", code): continue
            for m, mt in enumerate(re.finditer(pat, code)):
                if "template" in code or "typename" in code or "enable_if" in code: continue
                res.append((i, k, m))
    return L, res
def apply(L, site):
    i, k, m = site; L = list(L); pat, rep = RULES[k]
    if pat == "STMT": L[i] = re.match(r"\s*", L[i]).group(0) + ";"; return L
    ms = list(re.finditer(pat, L[i].split("//")[0]))[m]
    if rep == "if(!(":
        depth = 0; j = ms.end() - 1
        for e in range(j, len(L[i])):
            if L[i][e] == "(": depth += 1
            elif L[i][e] == ")":
                depth -= 1
                if not depth: break
        else: return None
        L[i] = L[i][:ms.start()] + "if(!" + L[i][j:e+1] + ")" + L[i][e+1:]; return L
    L[i] = L[i][:ms.start()] + rep + L[i][ms.end():]; return L
rnd = random.Random(seed); pool = []
for d, _, fs in os.walk(ROOT):
    for f in sorted(fs):
        p = os.path.join(d, f); rel = "src/estd/" + os.path.relpath(p, ROOT)
        if not f.endswith((".h", ".hpp", ".cpp", ".c")) or any(x in rel for x in SKIP) or (only and not any(o in rel for o in only)): continue
        if not props_for(rel): continue
        L, s = sites(p); rnd.shuffle(s)
        seen = set()
        for x in s: pool.append((rel, x))
rnd.shuffle(pool)
done = set()
for fn in os.listdir(os.path.dirname(os.path.abspath(out))):
    if fn.startswith("mut") and fn.endswith(".jsonl"):
        for l in open(os.path.join(os.path.dirname(os.path.abspath(out)), fn)): r = json.loads(l); done.add((r["file"], tuple(r["site"])))
pool = [p for p in pool if (p[0], tuple(p[1])) not in done][:N]
print(len(pool), "mutants", file=sys.stderr)
q = queue.Queue(); [q.put(p) for p in pool]; lock = threading.Lock(); f = open(out, "a")
def worker(w):
    repo = f"/tmp/mutrepo{w}"; vd = f"/tmp/mutverif{w}"
    for d in (repo, vd): shutil.rmtree(d, ignore_errors=True)
    os.makedirs(repo); shutil.copytree("/repo/src", repo + "/src"); shutil.copytree("/repo/test", repo + "/test", ignore=shutil.ignore_patterns("build*"), symlinks=True) if os.path.isdir("/repo/test") else None
    os.makedirs(vd)
    for n in ("check.py", "known_findings.txt", "properties.jsonl", "MANIFEST.json"): shutil.copy(f"{V}/{n}", vd)
    for n in ("drv", "lib", "tools"): shutil.copytree(f"{V}/{n}", f"{vd}/{n}")
    while True:
        try: rel, site = q.get_nowait()
        except queue.Empty: break
        p = f"{repo}/{rel}"; orig = open(p, errors="replace").read(); L = orig.split("\n"); M = apply(L, site)
        if M is None or M == L: continue
        open(p, "w").write("\n".join(M)); r = {"file": rel, "line": site[0] + 1, "site": site, "old": L[site[0]].strip(), "new": M[site[0]].strip(), "runs": {}}; verdict = "survived"
        for pr in props_for(rel):
            try: x = subprocess.run([sys.executable, "check.py", pr], cwd=vd, env=dict(os.environ, VF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=400); rc, o = x.returncode, x.stdout
            except subprocess.TimeoutExpired: rc, o = 99, "timeout"
            r["runs"][pr] = rc
            if rc:
                m = re.search(r"\n  (.*)", o); r["msg"] = (m.group(1) if m else o[-200:])[:200]
                verdict = "nocompile" if "interface" in o or "error:" in o else f"killed:{pr}"; break
        open(p, "w").write(orig); r["verdict"] = verdict
        with lock: f.write(json.dumps(r) + "\n"); f.flush()
    for d in (repo, vd): shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(WORKERS)]; [t.start() for t in ts]; [t.join() for t in ts]
