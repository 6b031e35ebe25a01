#include "vectors_impl.h"
VF_REG("layer2<int,10>", 60, history<V2<int, 10>>);
VF_REG("layer2<tracked,9>", 60, history<V2<Tracked, 9>>);
VF_REG("layer3<int>", 60, history<V3<int>>);
VF_REG("layer3<tracked>", 60, history<V3<Tracked>>);
