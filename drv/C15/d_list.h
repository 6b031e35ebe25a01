#pragma once
#include "vf.h"
#include <estd/forward_list.h>
#include <estd/list.h>
#include <estd/algorithm.h>
using namespace vf;
namespace opt {
typedef std::vector<int> Seq;
struct Body { Tracked t; explicit Body(int v = 0) : t(v) {} };
// nodes of every intrusive flavour; equality is by value
struct Plain : estd::experimental::forward_node_base, Body { Plain() {} bool operator==(const Plain& o) const { return t == o.t; } };
struct Typed : estd::experimental::forward_node_base_base<Typed*>, Body { Typed() : estd::experimental::forward_node_base_base<Typed*>(nullptr) {} bool operator==(const Typed& o) const { return t == o.t; } };
// base not at the start of the node
struct Late : Body, estd::experimental::forward_node_base { char pad[3]; Late() {} bool operator==(const Late& o) const { return t == o.t; } };
}
