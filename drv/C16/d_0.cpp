#include "d_chars.h"
using namespace cc;
VF_REG("values signed char", 60, values<signed char>); VF_REG("parse signed char", 60, parse<signed char>); VF_REG("to_string signed char", 30, strings<signed char>);
VF_REG("sweep signed char", 30, sweep<signed char>);
VF_REG("values unsigned char", 60, values<unsigned char>); VF_REG("parse unsigned char", 60, parse<unsigned char>); VF_REG("to_string unsigned char", 30, strings<unsigned char>);
VF_REG("sweep unsigned char", 30, sweep<unsigned char>);
