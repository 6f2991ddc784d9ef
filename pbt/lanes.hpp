// The asimd wrappers behind one interface: lanes travel as raw bits in u64, indices as int.
#pragma once
#include "names.hpp"
#include <cstdint>
#include <string>
#include <vector>
typedef uint64_t u64_;
struct ILanes {
  const char* name; int n, bits, kind, ni, chunk;                       // lanes, bits of a lane, kind: 0 signed 1 unsigned 2 floating, lanes of the index vector
  bool hasbi, hasg, hasadd, hassub, hasstr, hasblend, hasprint, hasext;   // blendindex, gather, +=, operator[], strided load, blend, printing, load with a step (arrays)
  ILanes(const char* nm) : name(nm), hasbi(false), hasg(false), hasadd(false), hassub(false), hasstr(false), hasblend(false), hasprint(false), hasext(false) {}
  virtual ~ILanes() {}
  virtual std::string store(const u64_* a, u64_* o, int off) = 0;        // load at an unaligned place and store between guards; says what was overwritten
  virtual void bcast(u64_ v, u64_* o) = 0;
  virtual bool separate(const u64_* a, u64_* o) = 0;                      // made from one value for each lane, where there is such a constructor
  virtual void max(const u64_* a, const u64_* b, u64_* o) = 0;
  virtual void select(const u64_* a, const u64_* b, const u64_* x, const u64_* y, u64_* o) = 0;     // a < b ? y : x; without blend the comparison's result
  virtual void selecti(const u64_* a, const u64_* b, const int* x, const int* y, int* o) = 0;
  virtual void add(const u64_* a, const u64_* b, u64_* o) = 0;
  virtual void incr(u64_ v, u64_* o) = 0;
  virtual u64_ lane(const u64_* a, int i) = 0;
  virtual void gather(const unsigned char* p, const int* off, u64_* o) = 0;      // p: aligned storage, offsets in bytes
  virtual void strided(const u64_* a, int first, int stride, u64_* o) = 0;        // of the len elements of a, element first and every stride-th after it
  virtual void argmax(const u64_* rows, int nrows, u64_* best, int* idx) = 0;     // the running maximum of rows and the row it came from
  virtual unsigned size() = 0;
  virtual std::string print(const u64_* a) = 0;
  int len = 0;
};
extern std::vector<ILanes*> g_lanes;
void register_lanes();
