// Deterministic property-based testing engine: every random decision is a recorded choice, so each case is a
// list of integers that can be replayed and shrunk. Exhaustive enumeration feeds choice lists directly.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include "ref.hpp"

struct Fail { std::string msg; };
struct Discard {};

inline u64 mix64(u64 x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }

extern int g_choice_fd;             // when >= 0, every choice is also written there (crash recovery)
void mirror_choice(u64 v);

struct Src {
  u64 st = 1;                       // generator state
  const u64* given = nullptr; size_t ngiven = 0;   // replayed choices (then zeros)
  bool replay = false;
  u64 rec[512]; size_t nrec = 0;    // recorded choices
  bool want = false;                // caller wants a readable description
  std::string text;
  bool nontrivial = false; u64 h = 0; bool counted = false;
  unsigned cls_bits = 0;
  bool covered = false;             // the case lies in a domain that is also enumerated completely
  u64 rnd() { st += 0x9E3779B97F4A7C15ull; u64 z = st; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  // uniform choice in [0,n); n==0 means all 64-bit values
  u64 draw(u64 n) {
    u64 v;
    if (replay) { v = nrec < ngiven ? given[nrec] : 0; if (n) v %= n; }
    else { v = rnd(); if (n) v = (u64)(((u128)v * n) >> 64); }
    if (nrec < 512) rec[nrec++] = v;
    if (__builtin_expect(g_choice_fd >= 0, 0)) mirror_choice(v);
    return v;
  }
  i64 range(i64 lo, i64 hi) { return lo + (i64)draw((u64)(hi - lo) + 1); }
  bool chance(int pct) { return (int)draw(100) >= 100 - pct; }   // choice 0 = no
  // the case is counted under this hash; nt: non-trivial by the check's rule
  void note(bool nt, u64 a, u64 b = 0, u64 c = 0, u64 d = 0) { nontrivial = nt; h = mix64(mix64(mix64(mix64(a) ^ b) ^ c) ^ d); counted = true; }
  void cls(int id) { cls_bits |= 1u << id; }
};

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define SHOW(S, ...) do { if ((S).want) (S).text = strf(__VA_ARGS__); } while (0)

typedef void (*BodyFn)(Src&);
struct Exh { u64 count; std::function<void(u64, std::vector<u64>&)> make; };
struct Body {
  std::string name;
  BodyFn fn;
  double quick, thorough;           // generated cases, in thousands
  std::vector<Exh> exhaustive;      // complete enumerations (run before generation)
  std::vector<std::string> classes;
};
struct Check {
  std::string property, rule;
  std::vector<Body> bodies;
  std::vector<std::string> assumptions;
  void (*init)(bool thorough) = nullptr;    // reference self-test, tables
  bool forked = false;              // failures are shrunk in fresh processes (what ran before matters)
};
int engine_main(int argc, char** argv, Check& c);
extern bool g_thorough;
