// Drives the C code under MemorySanitizer. Inputs are initialised, everything
// the code is given to write to is not; every returned byte must be
// initialised afterwards, and MSan watches every branch and address between.
//
// With SECRET it is the other way round: keys and inputs are marked as
// uninitialised, so that MSan reports each branch and address that depends on
// their contents, and what is returned must still carry the mark.
#include <sanitizer/msan_interface.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

void hasher_init(void *, const uint8_t *, uint8_t);
void hasher_update(void *, const void *, size_t);
void hasher_finalize(const void *, uint8_t *);

typedef void compress_f(void *, const uint8_t *, uint8_t, uint64_t, uint8_t);
typedef void many_f(const uint8_t *const *, size_t, size_t, const void *, uint64_t, const uint64_t *, uint8_t, uint8_t, uint8_t, uint8_t *);
#define ISA(X) X(portable) X(sse41) X(avx2) X(avx512) X(neon)
#define DECL(i)                                                                     \
  extern compress_f compress_##i __attribute__((weak));                             \
  extern many_f hash_many_##i __attribute__((weak));                                \
  extern compress_f baokeshed64_compress_##i __attribute__((weak));                 \
  extern many_f baokeshed64_hash_many_##i __attribute__((weak));
ISA(DECL)
#define ROW(i)                                                                      \
  {#i, 64, compress_##i, hash_many_##i},                                            \
  {"64 " #i, 128, baokeshed64_compress_##i, baokeshed64_hash_many_##i},
static struct { const char *name; size_t block; compress_f *c; many_f *m; } K[] = {ISA(ROW)};

static uint64_t s;
static uint64_t rnd(uint64_t n) {
  s ^= s << 13; s ^= s >> 7; s ^= s << 17;
  return n ? (s >> 11) % n : 0;
}
static uint8_t *input(size_t n) { // initialised, exactly n bytes
  uint8_t *p = malloc(n ? n : 1);
  for (size_t i = 0; i < n; i++) p[i] = (uint8_t)rnd(256);
#ifdef SECRET
  __msan_poison(p, n);
#endif
  return p;
}
static unsigned long long marked, unmarked;
static void returned(const uint8_t *p, size_t n) {
#ifdef SECRET
  int all = 1;
  for (size_t i = 0; i < n; i += 32) all &= __msan_test_shadow(p + i, 32) == 0;
  all ? marked++ : unmarked++;
#else
  if (n) __msan_check_mem_is_initialized(p, n);
#endif
}
static void *blank(size_t n) { void *p = malloc(n); __msan_allocated_memory(p, n); return p; }

int main(int argc, char **argv) {
#ifdef SECRET
  // Does the monitor see a branch and an address at all?
  if (!strcmp(argv[1], "branch")) return *input(1) > 9 ? 3 : 4;
  if (!strcmp(argv[1], "address")) return argv[0][*input(1) & 1] ? 3 : 4;
#endif
  s = 88172645463325252ull + 7919 * strtoull(argv[1], 0, 10);
  long cases = strtol(argv[2], 0, 10);
  size_t state = strtoul(argv[3], 0, 10);
  unsigned long long updates = 0, finals = 0, kernels = 0;
  static const size_t U[] = {0, 1, 63, 64, 65, 2047, 2048, 2049, 4096, 6144, 8192, 16384, 32768, 36000};
  for (long i = 0; i < cases; i++) {
    void *h = blank(state);
    uint8_t *key = input(32);
    hasher_init(h, key, (uint8_t[]){0, 16, 32}[i % 3]);
    for (int k = 0, n = 1 + (int)rnd(6); k < n; k++) {
      size_t l = rnd(2) ? U[rnd(14)] : rnd(rnd(2) ? 300 : 20000);
      uint8_t *in = input(l);
      hasher_update(h, in, l);
      free(in);
      updates++;
      if (rnd(2)) {
        uint8_t *out = blank(32);
        hasher_finalize(h, out);
        returned(out, 32);
        free(out);
        finals++;
      }
    }
    uint8_t *out = blank(32);
    hasher_finalize(h, out);
    returned(out, 32);
    finals++;
    free(out); free(key); free(h);
  }
  for (size_t k = 0; k < sizeof K / sizeof *K; k++)
    for (long i = 0; i < cases; i++) {
      uint8_t *key = input(32);
      if (K[k].c) {
        uint8_t *blk = input(K[k].block);
        K[k].c(key, blk, (uint8_t)rnd(K[k].block + 1), rnd(0), (uint8_t)rnd(64));
        returned(key, 32);
        free(blk);
        kernels++;
      }
      if (K[k].m) {
        size_t n = i % 36, b = 1 + rnd(4);
        const uint8_t *in[40];
        for (size_t j = 0; j < n; j++) in[j] = input(b * K[k].block);
        uint64_t *d = malloc(17 * 8), st = rnd(2) ? 0 : K[k].block * 32;
        for (int j = 0; j < 17; j++) d[j] = j * st;
        uint8_t *o = blank(n ? 32 * n : 1);
        K[k].m(in, n, b, key, rnd(1 << 20) * 2048, d, 16, 1, 2, o);
        returned(o, 32 * n);
        for (size_t j = 0; j < n; j++) free((void *)in[j]);
        free(d); free(o);
        kernels++;
      }
      free(key);
    }
#ifdef SECRET
  printf("{\"results_marked\": %llu, \"results_unmarked\": %llu, ", marked, unmarked);
  printf("\"updates\": %llu, \"finalizations\": %llu, \"kernel_calls\": %llu}\n", updates, finals, kernels);
#else
  printf("{\"updates\": %llu, \"finalizations\": %llu, \"kernel_calls\": %llu}\n", updates, finals, kernels);
#endif
  return 0;
}
