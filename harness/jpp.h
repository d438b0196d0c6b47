// Harness API.  In the symbolic run these calls are interpreted by the
// engine; in the native replay build they are provided by rt/native.cc, which
// reads the values from a replay file.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void jpp_make_symbolic(void *p, size_t n, const char *name);
void jpp_assume_i(int c);
void jpp_check_i(int c, const char *msg);
void jpp_reach(const char *label);
void jpp_observe(uint64_t v);
uint64_t jpp_concretize(uint64_t v);
int jpp_symbolic_mode(void);
void jpp_print(const char *label, uint64_t v);
// a bound chosen by the tier (--param name=value)
uint64_t jpp_param(const char *name, uint64_t dflt);
uint64_t jpp_select(int c, uint64_t a, uint64_t b);
}
#define jpp_assume(c) jpp_assume_i((c) ? 1 : 0)
#define jpp_check(c, m) jpp_check_i((c) ? 1 : 0, m)
#define HARNESS(name) extern "C" __attribute__((used, noinline)) void harness_##name()

template <typename T>
inline T jpp_any(const char *name) {
  T t;
  jpp_make_symbolic(&t, sizeof(T), name);
  return t;
}
// an integer in [lo, hi]; small ranges only take the bytes they need
template <typename T>
inline T jpp_range(const char *name, T lo, T hi) {
  if ((uint64_t)(hi - lo) < 256) {
    uint8_t b;
    jpp_make_symbolic(&b, 1, name);
    jpp_assume(b <= (uint8_t)(hi - lo));
    return (T)(lo + b);
  }
  T t;
  jpp_make_symbolic(&t, sizeof(T), name);
  jpp_assume(t >= lo && t <= hi);
  return t;
}
// same, but every feasible value becomes its own path
template <typename T>
inline T jpp_pick(const char *name, T lo, T hi) {
  return (T)jpp_concretize((uint64_t)jpp_range<T>(name, lo, hi));
}
