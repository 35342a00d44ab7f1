// Interface between the harnesses and the symbolic executor (engine/) or the native replayer
// (vp_native.cpp).  An "input" is a symbolic variable for the executor and a value read from the
// replay file natively.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <exception>
#include <type_traits>
extern "C" {
uint64_t vp_in(const char *name, unsigned bits);                           // any value of that many bits
uint64_t vp_range(const char *name, unsigned bits, uint64_t lo, uint64_t hi); // lo <= value <= hi (unsigned)
void vp_assume(bool c);                    // precondition
void vp_assert(bool c, const char *label); // the property
void vp_reach(const char *label);          // must be reachable (vacuity guard)
void vp_cut(const char *reason) __attribute__((noreturn)); // stated bound of the exploration
void vp_end() __attribute__((noreturn));   // end of the path, nothing more to check
void vp_fail(const char *msg) __attribute__((noreturn));   // unconditional violation
int vp_native();
void vp_trace(const char *name, uint64_t v);
uint64_t vp_split(uint64_t x, uint64_t max); // case split on the value of x (<= max)
uint64_t vp_gen(uint64_t a, uint64_t b, uint64_t hi); // a == b <= hi has been proved: continue with any value up to hi in place of both
double vp_genf(double x, uint64_t v, unsigned w);     // x * 2^w == v < 2^w has been proved: continue with any such v
bool vp_exc_is(const void *e, const char *cls);
uint64_t vp_obj_size(const void *p);
}
// a value the optimiser must not look through
#define VP_NOINLINE __attribute__((noinline))
// entries: q_* run in both tiers, t_* in the thorough tier only, k_* are the pinned known findings
#define ENTRY(n) extern "C" __attribute__((noinline, used)) void n()

namespace vp {
template <class T> inline T in(const char *n) { return static_cast<T>(vp_in(n, sizeof(T) * 8)); }
template <class T> inline T in(const char *n, T lo, T hi) {
  if (std::is_signed<T>::value && lo < T(0)) { typedef typename std::make_unsigned<T>::type U; U x = U(vp_range(n, sizeof(T) * 8, 0, uint64_t(U(U(hi) - U(lo))))); return T(U(x + U(lo))); }
  return static_cast<T>(vp_range(n, sizeof(T) * 8, uint64_t(lo), uint64_t(hi)));
}
inline bool flag(const char *n) { return vp_range(n, 1, 0, 1) != 0; }
inline double f64(const char *n) { uint64_t b = vp_in(n, 64); double d; std::memcpy(&d, &b, 8); return d; }
inline float f32(const char *n) { uint32_t b = (uint32_t)vp_in(n, 32); float d; std::memcpy(&d, &b, 4); return d; }

// any finite value
inline double finite(const char *n, double) { uint64_t b = vp_range(n, 64, 0, 0x7fefffffffffffffull); bool s = vp_range(n, 1, 0, 1) != 0; double d; std::memcpy(&d, &b, 8); return s ? -d : d; }
inline float finite(const char *n, float) { uint32_t b = (uint32_t)vp_range(n, 32, 0, 0x7f7fffffu); bool s = vp_range(n, 1, 0, 1) != 0; float d; std::memcpy(&d, &b, 4); return s ? -d : d; }
template <class T> inline T finite(const char *n) { return finite(n, T()); }
// any value between two non-negative ones
inline double between(const char *n, double lo, double hi) { uint64_t a, b; std::memcpy(&a, &lo, 8); std::memcpy(&b, &hi, 8); uint64_t v = vp_range(n, 64, a, b); double d; std::memcpy(&d, &v, 8); return d; }
inline float between(const char *n, float lo, float hi) { uint32_t a, b; std::memcpy(&a, &lo, 4); std::memcpy(&b, &hi, 4); uint32_t v = (uint32_t)vp_range(n, 32, a, b); float d; std::memcpy(&d, &v, 4); return d; }

// What a thrown exception means at this point of the harness (built with -fno-exceptions).
struct Throw { const char *cls; bool ok; void (*check)(); };
extern Throw expect;
inline void may_throw(const char *cls, void (*check)() = nullptr) { expect.cls = cls; expect.ok = true; expect.check = check; }
inline void no_throw() { expect.ok = false; }
}
