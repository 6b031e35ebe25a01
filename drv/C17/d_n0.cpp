#include "d_num.h"
VF_REG("num_get short", 60, ng::integers<short>);
VF_REG("num_get unsigned short", 60, ng::integers<unsigned short>);
