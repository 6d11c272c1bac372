#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *f;
static char *line; static size_t cap;
static const char *next(char k) {
  if (!f) { printf("REPLAY-END no input file\n"); fflush(stdout); _Exit(12); }
  if (getline(&line, &cap, f) < 0) { printf("REPLAY-END out of inputs\n"); fflush(stdout); _Exit(12); }
  if (line[0] != k) { printf("REPLAY-END wrong kind %c for %c\n", line[0], k); fflush(stdout); _Exit(12); }
  return line + 2;
}
void zs_open(const char *p) { f = fopen(p, "r"); if (!f) { perror(p); _Exit(12); } }
void zs_sym(uint8_t *p, size_t n, const char *nm, size_t nl) {
  const char *s = next('B');
  for (size_t i = 0; i < n; i++) { unsigned v; if (sscanf(s + 2 * i, "%2x", &v) != 1) { printf("REPLAY-END short\n"); fflush(stdout); _Exit(12);} p[i] = v; }
}
static uint64_t rd(void) { return strtoull(next('I'), 0, 10); }
uint64_t zs_int(uint64_t lo, uint64_t hi, const char *nm, size_t nl) {
  if (hi < lo) { printf("REPLAY-ASSUME range\n"); fflush(stdout); _Exit(10); }
  uint64_t v = rd();
  if (v < lo || v > hi) { printf("REPLAY-END range\n"); fflush(stdout); _Exit(12); }
  return v;
}
uint64_t zs_pick(uint64_t n, const char *nm, size_t nl) {
  uint64_t v = rd();
  if (v >= n) { printf("REPLAY-END pick\n"); fflush(stdout); _Exit(12); }
  return v;
}
void zs_assume(uint8_t c) { if (!c) { printf("REPLAY-ASSUME\n"); fflush(stdout); _Exit(10); } }
/* an assertion failure is printed and the run goes on, so that one replay shows all of them */
static int failed;
void zs_assert(uint8_t c, const char *m, size_t n) { if (!c) { printf("ASSERT %.*s\n", (int)n, m); fflush(stdout); failed = 11; } }
void zs_fail(const char *m, size_t n) { printf("ASSERT %.*s\n", (int)n, m); fflush(stdout); _Exit(11); }
void zs_reach(const char *m, size_t n) {}
void zs_obs(uint64_t t, uint64_t v) { printf("O %llu %llu\n", (unsigned long long)t, (unsigned long long)v); }
void zs_obs_bytes(uint64_t t, const uint8_t *p, size_t n) {
  printf("O %llu x", (unsigned long long)t);
  for (size_t i = 0; i < n; i++) printf("%02x", p[i]);
  printf("\n");
}
uint64_t zs_conc(uint64_t v) { return v; }
uint8_t zs_is_symbolic(void) { return 0; }
void zs_done(void) { printf("DONE\n"); fflush(stdout); _Exit(failed); }
static uint8_t panic_ok;
void zs_allow_panic(uint8_t on) { panic_ok = on; }
uint8_t zs_panic_ok(void) { return panic_ok; }
