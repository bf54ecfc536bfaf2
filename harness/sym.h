// Harness API. Interpreted symbolically by irsym; implemented natively by rt_native.cpp for replay.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
  uint64_t sym_u64(const char* name);
  int64_t  sym_i64(const char* name);
  uint32_t sym_u32(const char* name);
  int32_t  sym_i32(const char* name);
  uint16_t sym_u16(const char* name);
  uint8_t  sym_u8 (const char* name);
  bool     sym_bool(const char* name);
  int64_t  sym_range(int64_t lo, int64_t hi, const char* name);   // symbolic integer in [lo,hi]
  uint64_t sym_choose(uint64_t n, const char* name);              // forks: concrete 0..n-1
  int64_t  sym_concretize(int64_t v);                             // forks over feasible values
  double   sym_f64(const char* name);                             // any real (real mode) / any bit pattern (fp mode)
  float    sym_f32(const char* name);
  void     sym_assume(bool c);
  void     sym_check(bool c, const char* msg);
  void     sym_check_eq(double a, double b, const char* msg);     // exact in the solver; tolerance in native replay
  void     sym_check_le(double a, double b, const char* msg);
  void     sym_check_eqf(float a, float b, const char* msg);      // bit-exact numeric equality (fp mode)
  void     sym_reach(const char* label);
  int64_t  sym_live();                                            // outstanding heap allocations (0 natively; ASan/LSan takes over)
}
