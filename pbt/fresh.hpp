// An object constructed in memory that holds a fixed non-zero pattern: what a constructor leaves unset is then seen.
#pragma once
#include <new>
template <class P> struct FreshBuf { alignas(P) unsigned char m[sizeof(P)]; FreshBuf() { for (unsigned char& c : m) c = 0x5b; asm volatile("" : : "r"(m) : "memory"); } };
template <class P, class... A> inline P fresh(const A&... x) { FreshBuf<P> b; return *new ((void*)b.m) P(x...); }
