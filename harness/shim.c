/* Native side of the harness interface: replays one recorded assignment. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static uint64_t *vals; static int *wid; static long nvals = -1, pos;
static uint64_t params[32]; static int nparams = -1;
static uint64_t h = 0xcbf29ce484222325ULL; static unsigned long nouts;

static void load(void) {
    if (nvals >= 0) return;
    nvals = 0;
    vals = malloc(sizeof(uint64_t) * 65536); wid = malloc(sizeof(int) * 65536);
    const char *f = getenv("SYM_REPLAY");
    if (!f) return;
    FILE *fp = fopen(f, "r");
    if (!fp) { fprintf(stderr, "SYM no replay file\n"); exit(79); }
    unsigned long long v; int w;
    while (nvals < 65536 && fscanf(fp, "%d %llu", &w, &v) == 2) { wid[nvals] = w; vals[nvals++] = v; }
    fclose(fp);
}
static uint64_t next(int w) {
    load();
    if (pos >= nvals || wid[pos] != w) { fprintf(stderr, "SYM replay misaligned at %ld (width %d)\n", pos, w); _exit(78); }
    return vals[pos++];
}
uint8_t sym_u8(void) { return next(8); }
uint16_t sym_u16(void) { return next(16); }
uint32_t sym_u21(void) { return next(21); }
uint32_t sym_u32(void) { return next(32); }
uint64_t sym_u64(void) { return next(64); }
uint8_t sym_bool(void) { return next(1); }
uint64_t sym_param(uint64_t i) {
    if (nparams < 0) {
        nparams = 0;
        const char *p = getenv("SYM_PARAMS");
        while (p && *p && nparams < 32) { char *e; params[nparams++] = strtoull(p, &e, 10); p = *e ? e + 1 : e; }
    }
    return i < (uint64_t)nparams ? params[i] : 0;
}
void sym_assume(uint8_t c) { if (!c) { fprintf(stderr, "SYM assumption false\n"); _exit(77); } }
void sym_check(uint8_t c, const char *m, uint64_t n) { if (!c) { fflush(stdout); fprintf(stderr, "\nSYM CHECK FAILED: %.*s\n", (int)n, m); _exit(70); } }
void sym_fail(const char *m, uint64_t n) { sym_check(0, m, n); }
void sym_reach(uint64_t i) { (void)i; }
static void out(uint64_t v) { h = (h ^ v) * 0x100000001b3ULL; h ^= h >> 29; nouts++; }
void sym_out(uint64_t v) { out(v); }
void sym_out8(const uint8_t *p, uint64_t n) { for (uint64_t i = 0; i < n; i++) out(p[i]); }
uint64_t sym_concrete(uint64_t v) { return v; }
uint8_t sym_is_symbolic(uint64_t v) { (void)v; return 0; }
void sym_trace(const char *p, uint64_t n, uint64_t v) { if (getenv("SYMX_LOG")) fprintf(stderr, "[trace] %.*s %llu\n", (int)n, p, (unsigned long long)v); }
void sym_finish(void) { fflush(stdout); fprintf(stderr, "\nSYM OK %016llx %lu\n", (unsigned long long)h, nouts); }
