#include "d_chars.h"
using namespace cc;
VF_REG("values long", 60, values<long>); VF_REG("parse long", 60, parse<long>); VF_REG("to_string long", 30, strings<long>);
VF_REG("values unsigned long", 60, values<unsigned long>); VF_REG("parse unsigned long", 60, parse<unsigned long>); VF_REG("to_string unsigned long", 30, strings<unsigned long>);
