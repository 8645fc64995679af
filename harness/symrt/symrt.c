/* Native side of the harness API: replays one recorded input vector against the real code. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
static uint64_t *vals; static size_t nvals, pos; static int loaded; static FILE *out;
static void load(void) {
    if (loaded) return; loaded = 1;
    const char *o = getenv("SYMRT_OUT"); out = o ? fopen(o, "w") : stderr; if (!out) out = stderr;
    const char *p = getenv("SYMRT_IN"); if (!p) return;
    FILE *f = fopen(p, "r"); if (!f) { perror(p); exit(99); }
    size_t cap = 1024; vals = malloc(cap * 8);
    unsigned long long v;
    while (fscanf(f, "%llu", &v) == 1) { if (nvals == cap) { cap *= 2; vals = realloc(vals, cap * 8); } vals[nvals++] = v; }
    fclose(f);
}
static uint64_t next(void) { load(); return pos < nvals ? vals[pos++] : (pos++, 0); }
uint64_t sym_bits(uint32_t n) { uint64_t v = next(); return n >= 64 ? v : v & ((1ull << n) - 1); }
uint64_t sym_range(uint64_t n) { if (n <= 1) return 0; uint64_t v = next(); return n ? v % n : v; }
uint64_t sym_case(uint64_t n) { uint64_t v = next(); return n ? v % n : v; }
void sym_assume(bool b) { load(); if (!b) { fprintf(out, "ASSUME-FAILED\n"); fflush(out); _Exit(77); } }
static int failed;
void sym_check(bool b, const char *p, uint64_t n) { load(); if (!b) { fprintf(out, "CHECK-FAILED %.*s\n", (int)n, p); fflush(out); _Exit(42); } }
void sym_cover(const char *p, uint64_t n) { load(); fprintf(out, "COVER %.*s\n", (int)n, p); }
void sym_observe(uint64_t v) { load(); fprintf(out, "OBS %llu\n", (unsigned long long)v); fflush(out); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_merge_level(uint32_t l) { (void)l; }
void sym_lut_bits(uint32_t l) { (void)l; }
uint64_t sym_is_symbolic(void) { return 0; }
