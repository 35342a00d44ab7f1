// Native side: replays one assignment of the inputs against the real code.
// exit 0: ran to the end; 1: property violated; 77: assumption false; 78: outside the stated bound
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <stdexcept>
#include <dlfcn.h>
#include <unistd.h>
static std::map<std::string, uint64_t> vals; static std::map<std::string, int> occ;
static void quit(int c) { fflush(stdout); _exit(c); }
extern "C" {
uint64_t vp_range(const char *n, unsigned bits, uint64_t lo, uint64_t hi) {
  std::string k = std::string(n) + "#" + std::to_string(occ[n]++); auto it = vals.find(k); uint64_t v = it == vals.end() ? lo : it->second;
  if (v < lo || v > hi) { printf("OUTSIDE %s\n", k.c_str()); quit(77); } return v; }
uint64_t vp_in(const char *n, unsigned bits) { return vp_range(n, bits, 0, bits >= 64 ? ~0ull : (1ull << bits) - 1); }
void vp_assume(bool c) { if (!c) { printf("ASSUME\n"); quit(77); } }
void vp_assert(bool c, const char *l) { printf("REACHED assert:%s\n", l); if (!c) { printf("ASSERTION FAILED: %s\n", l); quit(1); } }
void vp_reach(const char *l) { printf("REACHED reach:%s\n", l); }
void vp_cut(const char *r) { printf("CUT %s\n", r); quit(78); }
void vp_end() { printf("END\n"); quit(0); }
void vp_fail(const char *m) { printf("FAILED: %s\n", m); quit(1); }
int vp_native() { return 1; }
void vp_trace(const char *n, uint64_t v) { printf("TRACE %s %llu\n", n, (unsigned long long)v); }
uint64_t vp_split(uint64_t x, uint64_t) { return x; }
uint64_t vp_gen(uint64_t a, uint64_t, uint64_t hi) { if (a > hi) { printf("ASSERTION FAILED: generalised value out of range\n"); quit(1); } return a; }
double vp_genf(double x, uint64_t v, unsigned w) { if (w < 64 && v >> w) { printf("ASSERTION FAILED: generalised value out of range\n"); quit(1); } return x; }
bool vp_exc_is(const void *p, const char *c) {
  const std::exception *e = static_cast<const std::exception *>(p); std::string s = c;
  if (s == "range_error") return dynamic_cast<const std::range_error *>(e); if (s == "invalid_argument") return dynamic_cast<const std::invalid_argument *>(e);
  if (s == "overflow_error") return dynamic_cast<const std::overflow_error *>(e); if (s == "runtime_error") return dynamic_cast<const std::runtime_error *>(e);
  if (s == "out_of_range") return dynamic_cast<const std::out_of_range *>(e); if (s == "domain_error") return dynamic_cast<const std::domain_error *>(e);
  return true; }
uint64_t vp_obj_size(const void *) { return ~0ull; }
}
int main(int argc, char **argv) {
  if (argc > 2) { FILE *f = fopen(argv[2], "r"); if (!f) { perror(argv[2]); return 3; } char b[512], nm[400]; unsigned long long v; while (fgets(b, sizeof b, f)) if (b[0] != '!' && sscanf(b, "%399s %llu", nm, &v) == 2) vals[nm] = v; fclose(f); }
  void *p = dlsym(RTLD_DEFAULT, argv[1]); if (!p) { fprintf(stderr, "no entry %s\n", argv[1]); return 3; }
  alarm(60); ((void (*)())p)(); printf("RETURN\n"); quit(0);
}
