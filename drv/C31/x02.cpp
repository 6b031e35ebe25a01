#define VF_PREFIX "search/"
#include "../C02/search.cpp"
