// Deterministic cooperative scheduler for running the real (unmodified) engines.
#ifndef VSCHED_H
#define VSCHED_H
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <stdio.h>

typedef struct {
    uint64_t seed;
    int      preempt;        // mean number of basic blocks between preemptions, 0 = never
    int      jump;           // per mille chance to jump the clock to a sleeper although someone is ready
    int      policy;         // 0 uniform, 1 sticky priorities with changes, 2 one slow thread
    uint64_t maxSwitches;    // give up after so many context switches (0 = default)
    double   maxTime;        // virtual seconds (0 = default)
    int      tickns;         // virtual ns per instrumented basic block
} vs_conf;

void     vs_start(const vs_conf *);          // the calling thread becomes thread 0
void     vs_conf_from_seed(vs_conf *, uint64_t seed);
uint64_t vs_rand(void);                      // harness randomness (separate stream)
uint32_t vs_randn(uint32_t n);               // 0 .. n-1
double   vs_now(void);                       // virtual seconds since start
void     vs_yield(void);
void     vs_advance(double seconds);         // let virtual time pass for the caller
int      vs_self(void);
int      vs_alive(void);                     // threads not finished
uint64_t vs_switches(void);
uint64_t vs_blocks(void);
extern void (*vs_observer)(void);            // called at every instrumented basic block and switch
extern void (*vs_giveup)(const char *why);   // called on deadlock / livelock, before exit
extern int (*vs_rxfault)(int fd, size_t *n, int flags);   // read/recv on a socket: an errno to fail with, or 0 and perhaps fewer bytes
extern bool  vs_enabled;
extern double vs_epoch;                      // virtual wall clock at start

// trace output
void tr_open(const char *path);
void tr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // one line
void tr_close(void);
#endif
