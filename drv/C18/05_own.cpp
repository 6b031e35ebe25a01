// the same monitors over the library's own character traits (docs/Platform.md, FEATURE_ESTD_CHARTRAITS)
#define FEATURE_ESTD_CHARTRAITS 1
#define VF_NARROW
#define VF_PREFIX "own traits/"
#include "01_sinks.cpp"
VF_GROUP_W(own_traits, 1) { VF_EV("own character traits"); c.nt(); }
