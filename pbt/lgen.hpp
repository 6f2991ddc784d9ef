#pragma once
#include "gen.hpp"
inline u64 gen_lay(Src& s, const FFmt& f) {
  u64 m = f.bits() == 64 ? ~0ull : (1ull << f.bits()) - 1;
  switch (s.draw(8)) {
    case 0: case 1: return s.draw(0) & m;
    case 2: return ((s.draw(2) << (f.eb + f.fb)) | gen_bits(s, f.fb)) & m;                       // subnormal
    case 3: return ((s.draw(2) << (f.eb + f.fb)) | (f.emask() << f.fb) | (s.draw(2) ? gen_bits(s, f.fb) : 0)) & m;   // inf, NaN
    case 4: { u64 b = 0; switch (s.draw(4)) { case 0: b = f.maxfin(); break; case 1: b = 1ull << f.fb; break; case 2: b = (u64)f.bias() << f.fb; break; default: b = f.infb(); } return ((b + (u64)s.range(-2, 2)) ^ (s.draw(2) << (f.eb + f.fb))) & m; }
    default: return ((s.draw(2) << (f.eb + f.fb)) | s.draw(f.emask() + 1) << f.fb | gen_bits(s, f.fb)) & m;
  }
}
