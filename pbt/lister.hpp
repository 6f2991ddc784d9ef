#pragma once
#include "names.hpp"
#include <string>
#include <vector>
// the posit lister (src/listposits.cpp), built once per format and loaded as a module
struct Lister { int N, es, spec, holder, ftb; const char *name, *dflt; int (*fn)(int, char const**); };
extern std::vector<Lister> g_listers;
void add_lister(int N, int es, int spec, int holder, int ftb, const char* name, const char* so, const char* dflt = "iv");
