#include "d_chars.h"
using namespace cc;
VF_REG("values short", 60, values<short>); VF_REG("parse short", 60, parse<short>); VF_REG("to_string short", 30, strings<short>);
VF_REG("sweep short", 30, sweep<short>);
VF_REG("values unsigned short", 60, values<unsigned short>); VF_REG("parse unsigned short", 60, parse<unsigned short>); VF_REG("to_string unsigned short", 30, strings<unsigned short>);
VF_REG("sweep unsigned short", 30, sweep<unsigned short>);
