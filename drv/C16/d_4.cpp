#include "d_chars.h"
using namespace cc;
VF_REG("values long long", 60, values<long long>); VF_REG("parse long long", 60, parse<long long>); VF_REG("to_string long long", 30, strings<long long>);
VF_REG("values unsigned long long", 60, values<unsigned long long>); VF_REG("parse unsigned long long", 60, parse<unsigned long long>); VF_REG("to_string unsigned long long", 30, strings<unsigned long long>);
