#include "d_num.h"
VF_REG("num_get long long", 60, ng::integers<long long>);
VF_REG("num_get unsigned long long", 60, ng::integers<unsigned long long>);
