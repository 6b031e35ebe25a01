#include "vf.h"
#include <estd/locale.h>
#include <estd/cctype.h>
#include <estd/charconv.h>
#include <estd/sstream.h>
#include <estd/internal/chooser.h>
#include <limits>
#include <cmath>
#include <cctype>
#include <sstream>
#include <string>
using namespace vf;
typedef estd::locale::classic_type classic;
typedef estd::ios_base::iostate iostate;
static const iostate goodb = estd::ios_base::goodbit, failb = estd::ios_base::failbit, eofb = estd::ios_base::eofbit;
