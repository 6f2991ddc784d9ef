#include <sstream>
#include TAB_HDR
#define TAB_IMPL
#include "tab.hpp"
#define STR_(x) #x
#define STR(x) STR_(x)
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(reg_, TAB_CLASS)() { g_tabs.push_back(new TabImpl<TAB_CLASS>(STR(TAB_CLASS))); }
