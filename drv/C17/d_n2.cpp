#include "d_num.h"
VF_REG("num_get long", 60, ng::integers<long>);
VF_REG("num_get unsigned long", 60, ng::integers<unsigned long>);
