#include "edit_impl.h"
VF_REG("layer1<1>", 10, history<L1<1, false>>);
VF_REG("layer1<8>", 100, history<L1<8, true>>);
VF_REG("layer1<2>", 20, history<L1<2, true>>);
VF_REG("layer1<16,counted>", 100, history<L1<16, false>>);
VF_REG("layer1<255>", 40, history<L1<255, true>>);
VF_REG("layer1<256>", 40, history<L1<256, true>>);
VF_REG("layer1<257,counted>", 40, history<L1<257, false>>);
VF_REG("construct", 30, construct<12, true>);
VF_REG("construct,counted", 30, construct<12, false>);
