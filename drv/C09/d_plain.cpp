#include "d_optional.h"
using namespace opt;
constexpr unsigned ALL = ORDERED | EMPLACE | REFS;
OPT("optional<int>", estd::optional<int>, int, NONE, -50, 50, ALL | HASHED, 60);
OPT("optional<signed char>", estd::optional<signed char>, signed char, NONE, -128, 127, ALL, 30);
OPT("optional<bool>", estd::optional<bool>, bool, NONE, 0, 1, ALL, 40);
OPT("optional<double>", estd::optional<double>, double, NONE, -50, 50, ALL, 30);
OPT("optional<long long>", estd::optional<long long>, long long, NONE, -9, 9, ALL, 30);
OPT("optional<Wide>", estd::optional<Wide>, Wide, NONE, 0, 9, ALL, 40);
OPT("optional<Plain>", estd::optional<Plain>, Plain, NONE, 0, 7, ALL, 20);
OPT("optional<Tracked>", estd::optional<Tracked>, Tracked, NONE, 1, 50, EMPLACE | REFS | ASSIGNINT, 100);
OPT("optional<Quiet>", estd::optional<Quiet>, Quiet, NONE, 1, 50, EMPLACE | REFS | ASSIGNINT, 80);
OPT("optional<Frozen>", estd::optional<Frozen>, Frozen, NONE, 1, 50, EMPLACE | REFS | NOASSIGN, 60);
