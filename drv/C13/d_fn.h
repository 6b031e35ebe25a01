#pragma once
#include "vf.h"
#include "values.h"
#include <estd/functional.h>
#include <functional>
using namespace vf;
namespace opt {
typedef std::unique_ptr<Tracked> Uniq;
// what the targets report: one entry per invocation
struct Call { int target; const void* self; long arg; };
extern VF_TLS std::vector<Call> calls;
inline void log(int target, const void* self, long arg) { calls.push_back(Call{target, self, arg}); }
// callable with its own state: a running total makes clones and shares distinguishable
struct Acc { int id; Tracked t; Acc(int i, int total = 0) : id(i), t(total) {} int operator()(int v) { t = Tracked(t.get() + v); log(id, nullptr, v); return t.get() * 100 + id; } };
struct Fat { int id; Tracked t; char pad[200]; Fat(int i, int total = 0) : id(i), t(total) { memset(pad, i, sizeof pad); } int operator()(int v) { for(char c : pad) if(c != (char)id) return -1; t = Tracked(t.get() + v); log(id, nullptr, v); return t.get() * 100 + id; } };
struct Obj { int id; int total; int sum(int v) { total += v; log(id, this, v); return total * 100 + id; } int diff(int v) { total -= v; log(id + 50, this, v); return total * 100 + id; } void bump() { total += 3; log(id, this, 0); } };
inline int plain3(int v) { log(203, nullptr, v); return v * 3; }
inline int plain5(int v) { log(205, nullptr, v); return v * 5; }
struct Want { int target; const void* self; long arg; };
inline void one_call(Ctx& c, int target, const void* self, long arg) { VF_EQ((long)calls.size(), 1, "invocations of a target"); VF_EQ(calls[0].target, target, "target invoked"); VF_REQ(calls[0].self == self, "invoked on another object"); VF_EQ(calls[0].arg, arg, "argument"); calls.clear(); VF_EV("invoked"); }
}
