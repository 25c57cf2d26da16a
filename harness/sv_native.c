#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdbool.h>
/* Replays a recorded counterexample against the natively compiled code.
   DUNE_VERIF_REPLAY=<file>: first line the harness, then "name hex" lines. */
extern char **environ;
static const char *env_of(const char *n) { size_t k = strlen(n); for (char **e = environ; e && *e; e++) if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1; return NULL; }
static FILE *f;
static char entry[256];
const char *sv_native_entry(void) {
  const char *p = env_of("DUNE_VERIF_REPLAY");
  if (!p) return NULL;
  f = fopen(p, "r");
  if (!f || fscanf(f, "%255s", entry) != 1) { fprintf(stderr, "SV_BAD_REPLAY\n"); _exit(99); }
  return entry;
}
static void rd(uint8_t *p, size_t n, const char *name, size_t nl) {
  static char nm[256]; static char hex[1 << 16];
  if (!f || fscanf(f, "%255s %65535s", nm, hex) != 2) { fprintf(stderr, "SV_REPLAY_EXHAUSTED at %.*s\n", (int)nl, name); _exit(98); }
  if (strlen(nm) != nl || memcmp(nm, name, nl)) { fprintf(stderr, "SV_REPLAY_MISMATCH %s vs %.*s\n", nm, (int)nl, name); _exit(98); }
  memset(p, 0, n);
  for (size_t i = 0; i < n && hex[2 * i] && hex[0] != '-'; i++) { unsigned x; sscanf(hex + 2 * i, "%2x", &x); p[i] = x; }
}
void sv_bytes(uint8_t *p, size_t n, const char *name, size_t nl) { rd(p, n, name, nl); }
uint8_t sv_u8(const char *a, size_t n) { uint8_t x; rd(&x, 1, a, n); return x; }
uint32_t sv_u32(const char *a, size_t n) { uint32_t x; rd((void *)&x, 4, a, n); return x; }
uint64_t sv_u64(const char *a, size_t n) { uint64_t x; rd((void *)&x, 8, a, n); return x; }
bool sv_bool(const char *a, size_t n) { uint8_t x; rd(&x, 1, a, n); return x & 1; }
uint64_t sv_choose(uint64_t k, const char *a, size_t n) { uint64_t x; rd((void *)&x, 8, a, n); (void)k; return x; }
void sv_assume(bool c) { if (!c) { fprintf(stderr, "SV_ASSUME_FAILED\n"); _exit(77); } }
void sv_assert(bool c, const char *m, size_t n) { if (!c) { fflush(stdout); fprintf(stderr, "SV_ASSERT_FAILED %.*s\n", (int)n, m); _exit(42); } }
void sv_reach(const char *m, size_t n) { if (env_of("DUNE_VERIF_VERBOSE")) fprintf(stderr, "SV_REACH %.*s\n", (int)n, m); }
void sv_note(const char *m, size_t n) { fprintf(stderr, "SV_NOTE %.*s\n", (int)n, m); }
bool sv_is_sym(void) { return false; }
void sv_thread(bool on) { (void)on; }
void sv_opaque(bool on) { (void)on; }
uint64_t sv_conc(uint64_t x) { return x; }
void sv_native_done(void) { fflush(stdout); fprintf(stderr, "SV_DONE\n"); _exit(0); }
