// Helpers of the harnesses that run without the scheduler: randomness and trace output.
#ifndef PLAIN_H
#define PLAIN_H
#include <stdint.h>
#include <stdio.h>
#include <stdarg.h>
static uint64_t pl_s = 88172645463325252ull;
static inline void rnd_seed(uint64_t s) { pl_s = (s + 1) * 0x9E3779B97F4A7C15ull; if (!pl_s) pl_s = 7; }
static inline uint64_t rnd(void) { pl_s ^= pl_s << 13; pl_s ^= pl_s >> 7; pl_s ^= pl_s << 17; return pl_s * 0x2545F4914F6CDD1Dull; }
static inline uint32_t rndn(uint32_t n) { return n ? (uint32_t)((rnd() >> 33) % n) : 0; }
static FILE *pl_f;
static inline void tr_open(const char *p) { pl_f = fopen(p, "w"); }
__attribute__((format(printf, 1, 2))) static inline void tr(const char *fmt, ...) {
    va_list a; va_start(a, fmt); vfprintf(pl_f, fmt, a); va_end(a); fputc('\n', pl_f); fflush(pl_f);
}
static inline void tr_close(void) { fputs("[\"end\",0,0,0]\n", pl_f); fclose(pl_f); }
#endif
