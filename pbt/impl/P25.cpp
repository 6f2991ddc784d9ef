// one build of everything under test, loaded as a private library
#include "unpacked.h"
#ifndef FPGAHLS
#include "anyfloat.hpp"
#endif
#include "P15.cpp"
#undef R
#ifndef FPGAHLS
#include "P18.cpp"
#undef R
#else
#include "../afl.hpp"   // emulated floats compute with native ones, which this build does not have
std::vector<IAny*> g_anys; void register_anys() {}
#endif
std::vector<IPosit*> g_cfgs;
void register_cfgs();
extern "C" __attribute__((visibility("default"))) void build_tables(std::vector<IPosit*>** a, std::vector<IUnp*>** b, std::vector<IAny*>** c) { register_cfgs(); register_unps(); register_anys(); *a = &g_cfgs; *b = &g_unps; *c = &g_anys; }
// the harness functions the type-erased wrappers refer to
#include <stdarg.h>
#include <stdio.h>
int g_choice_fd = -1; void mirror_choice(u64) {}
void fail(const char* fmt, ...) { char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); throw Fail{buf}; }
std::string strf(const char* fmt, ...) { char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); return buf; }
