import json, re, sys, os
cov = json.load(open("/tmp/cov.json")); R = "/repo/src/estd"; tot = 0
for root, _, fs in os.walk(R):
    if any(x in root for x in ("/port/", "/exp", "/c++03", "/obsolete", "/unused")): continue
    for f in sorted(fs):
        p = os.path.join(root, f); d = cov.get(p, {})
        if not f.endswith((".h", ".hpp", ".cpp", ".c")): continue
        out = []; lines = open(p, errors="replace").read().split("\n"); com = False
        for i, l in enumerate(lines, 1):
            s = l.strip()
            if com: com = "*/" not in s; continue
            if s.startswith("/*"): com = "*/" not in s; continue
            if s.startswith("//"): continue
            k = str(i)
            if k in d:
                if d[k] == 0: out.append((i, "0", s))
            elif re.search(r"\breturn\b|^\w[\w\.:>\-<]*\(.*\);$", s) and not s.startswith("#"): out.append((i, "-", s))
        if out:
            tot += len(out); print("==", p[len(R) + 1:], "(never seen)" if not d else "")
            if d or "-v" in sys.argv:
                for o in out: print("   %d %s %s" % (o[0], o[1], o[2][:110]))
print(tot)
