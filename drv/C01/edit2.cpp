#include "edit_impl.h"
VF_REG("layer2<8>", 100, history<L2<8, true>>);
VF_REG("layer2<16,counted>", 100, history<L2<16, false>>);
VF_REG("layer2<>", 60, history<L2U>);
VF_REG("layer3", 100, history<L3<true>>);
VF_REG("layer3,counted", 100, history<L3<false>>);
VF_REG("heap", 120, history<Dyn<false>>);
