#include "d_chars.h"
using namespace cc;
VF_REG("values int", 60, values<int>); VF_REG("parse int", 60, parse<int>); VF_REG("to_string int", 30, strings<int>);
VF_REG("values unsigned", 60, values<unsigned>); VF_REG("parse unsigned", 60, parse<unsigned>); VF_REG("to_string unsigned", 30, strings<unsigned>);
