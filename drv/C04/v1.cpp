#include "vectors_impl.h"
VF_REG("layer1<int,10>", 100, history<V1<int, 10>>);
VF_REG("layer1<tri,7>", 60, history<V1<Tri, 7>>);
VF_REG("layer1<tracked,9>", 120, history<V1<Tracked, 9>>);
VF_REG("layer1<tracked,40>", 60, history<V1<Tracked, 40>>);
VF_REG("layer1<i64,300>", 40, history<V1<long long, 300>>);
VF_REG("layer1<int,255>", 20, history<V1<int, 255>>);
VF_REG("layer1<tracked,256>", 20, history<V1<Tracked, 256>>);
VF_REG("layer1<tri,66000>", 1, history<V1<Tri, 66000>>);
