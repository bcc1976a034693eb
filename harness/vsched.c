// Deterministic cooperative scheduler: one thread runs at a time, every scheduling
// decision comes from a seed. Linked with --wrap for the calls listed in tools/vk.py.
#define _GNU_SOURCE
#include "vsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <sys/stat.h>
#include <poll.h>
#include <fcntl.h>
#include <unistd.h>
#include <sched.h>
#include <linux/futex.h>
#include <sys/syscall.h>

#define VS_MAXT 128
enum { T_FREE, T_READY, T_SLEEP, T_MUTEX, T_SEM, T_JOIN, T_FD, T_COND, T_DONE };

typedef struct {
    int state;
    pthread_t tid;
    uint64_t wake;            // ns
    void *obj;                // mutex / sem / cond
    int joinee;
    struct pollfd *pfd; int npfd;
    bool hasWake;
    bool timedOut;
    volatile int go;          // futex word
    void *(*fn)(void *); void *arg; void *ret;
    int prio;
} vthread;

static vthread T[VS_MAXT];
static int nT = 0;
static volatile int cur = -1;
static __thread int self = -1;
static __thread int inside = 0;
static vs_conf C;
static uint64_t now_ns = 0;
static uint64_t rs, hs;
static uint64_t switches = 0, blocks = 0;
static int countdown = 0;
static int slowThread = -1;
static int nextPrioChange = 0;
bool vs_enabled = false;
double vs_epoch = 1700000000.0;
void (*vs_observer)(void) = NULL;
void (*vs_giveup)(const char *) = NULL;

int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_usleep(useconds_t);
unsigned __real_sleep(unsigned);
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_gettimeofday(struct timeval *, void *);
time_t __real_time(time_t *);
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_recv(int, void *, size_t, int);
int __real_accept(int, struct sockaddr *, socklen_t *);

static uint64_t xs(uint64_t *s) {
    uint64_t x = (*s += 0x9E3779B97F4A7C15ull);
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
uint64_t vs_rand(void) { return xs(&hs); }
uint32_t vs_randn(uint32_t n) { return n ? (uint32_t)(xs(&hs) % n) : 0; }
double vs_now(void) { return now_ns * 1e-9; }
int vs_self(void) { return self; }
uint64_t vs_switches(void) { return switches; }
uint64_t vs_blocks(void) { return blocks; }
int vs_alive(void) { int k, n = 0; for (k = 0; k < nT; k++) n += T[k].state != T_DONE && T[k].state != T_FREE; return n; }

static void fwait(volatile int *w) {
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void fpost(volatile int *w) {
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

static void giveup(const char *why, int code) {
    int k;
    static const char *names[] = {"free","ready","sleep","mutex","sem","join","fd","cond","done"};
    vs_enabled = false;
    fprintf(stderr, "VSCHED %s now=%.6f switches=%lu\n", why, now_ns * 1e-9, switches);
    for (k = 0; k < nT; k++) fprintf(stderr, "  T%d %s obj=%p join=%d fn=%p\n", k, names[T[k].state], T[k].obj, T[k].joinee, (void *)T[k].fn);
    if (vs_giveup) vs_giveup(why);
    tr_close();
    fflush(stdout);
    _exit(code);
}

static void set_countdown(void) {
    if (C.preempt <= 0) { countdown = 1 << 30; return; }
    uint64_t r = xs(&rs);
    // mix of short bursts and long runs
    if (r % 8 == 0) countdown = 1 + (r >> 8) % 6;
    else countdown = 1 + (r >> 8) % (2 * (uint64_t)C.preempt);
}

static bool fd_ready(vthread *t) {
    struct pollfd *p = t->pfd;
    return poll(p, t->npfd, 0) > 0;
}

// wake everything whose condition holds
static void refresh(void) {
    int k;
    for (k = 0; k < nT; k++) {
        vthread *t = &T[k];
        if (t->state == T_FD && fd_ready(t)) { t->timedOut = false; t->state = T_READY; continue; }
        if ((t->state == T_SLEEP || ((t->state == T_FD || t->state == T_SEM || t->state == T_COND) && t->hasWake)) && t->wake <= now_ns) {
            t->timedOut = true;
            t->state = T_READY;
        }
    }
}

static int pick(void) {
    int k, n, c[VS_MAXT];
    int idle = 0;
again:
    refresh();
    n = 0;
    for (k = 0; k < nT; k++) if (T[k].state == T_READY) c[n++] = k;
    bool jump = n == 0 || (C.jump && (int)(xs(&rs) % 1000) < C.jump);
    if (jump) {
        uint64_t best = UINT64_MAX;
        for (k = 0; k < nT; k++) {
            vthread *t = &T[k];
            if (t->state == T_SLEEP || ((t->state == T_FD || t->state == T_SEM || t->state == T_COND) && t->hasWake)) {
                if (t->wake < best) best = t->wake;
            }
        }
        if (best != UINT64_MAX) {
            // give in-kernel sockets a real chance before declaring that time passes
            if (n == 0) {
                bool anyfd = false;
                for (k = 0; k < nT; k++) anyfd |= T[k].state == T_FD;
                if (anyfd && idle == 0) { idle = 1; sched_yield(); goto again; }
            }
            if (best > now_ns) now_ns = best;
            refresh();
            n = 0;
            for (k = 0; k < nT; k++) if (T[k].state == T_READY) c[n++] = k;
        } else if (n == 0) {
            bool anyfd = false;
            for (k = 0; k < nT; k++) anyfd |= T[k].state == T_FD;
            if (anyfd && idle < 2000) { idle++; struct timespec ts = {0, 200000}; __real_nanosleep(&ts, NULL); goto again; }
            giveup("DEADLOCK", 42);
        }
    }
    if (n == 1) return c[0];
    if (C.policy == 1) {
        // sticky random priorities
        if (--nextPrioChange <= 0) {
            nextPrioChange = 1 + xs(&rs) % 400;
            T[xs(&rs) % nT].prio = (int)(xs(&rs) % 1000);
        }
        // to stay fair, now and then ignore the priorities
        if (xs(&rs) % 16) {
            int b = c[0];
            for (k = 1; k < n; k++) if (T[c[k]].prio > T[b].prio) b = c[k];
            return b;
        }
    } else if (C.policy == 2) {
        if (slowThread < 0 || xs(&rs) % 5000 == 0) slowThread = (int)(xs(&rs) % (uint64_t)nT);
        if (xs(&rs) % 40) {
            int m = 0, d[VS_MAXT];
            for (k = 0; k < n; k++) if (c[k] != slowThread) d[m++] = c[k];
            if (m) return d[xs(&rs) % m];
        }
    }
    return c[xs(&rs) % n];
}

static void schedule(void) {
    switches++;
    now_ns += 100;
    if (switches > C.maxSwitches) giveup("TOO-MANY-SWITCHES", 43);
    if (now_ns * 1e-9 > C.maxTime) giveup("TOO-LONG", 43);
    int me = self;
    int nx = pick();
    set_countdown();
    if (nx == me) return;
    cur = nx;
    fpost(&T[nx].go);
    if (me >= 0 && T[me].state != T_DONE) fwait(&T[me].go);
}

static inline void observe(void) {
    if (vs_observer) vs_observer();
}

static void block(int state) {
    inside++;
    observe();
    T[self].state = state;
    schedule();
    inside--;
}

void vs_yield(void) {
    if (!vs_enabled || self < 0) { __real_usleep(0); return; }
    block(T_READY);
}

void vs_advance(double seconds) {
    if (!vs_enabled || self < 0) { __real_usleep((useconds_t)(seconds * 1e6)); return; }
    T[self].hasWake = true;
    T[self].wake = now_ns + (uint64_t)(seconds * 1e9);
    block(T_SLEEP);
}

void __sanitizer_cov_trace_pc(void) {
    if (!vs_enabled || self < 0 || inside) return;
    inside = 1;
    blocks++;
    now_ns += C.tickns;
    observe();
    if (--countdown <= 0) schedule();
    inside = 0;
}

void vs_conf_from_seed(vs_conf *c, uint64_t seed) {
    static const int pre[] = {0, 3000, 600, 150, 40, 12, 300, 1000};
    static const int jmp[] = {0, 0, 5, 20, 80, 2, 200, 10};
    uint64_t s = seed * 7919 + 17;
    memset(c, 0, sizeof(*c));
    c->seed = seed;
    c->preempt = pre[xs(&s) % 8];
    c->jump = jmp[xs(&s) % 8];
    c->policy = xs(&s) % 3;
    c->tickns = 20;
}

void vs_start(const vs_conf *conf) {
    C = *conf;
    if (C.maxSwitches == 0) C.maxSwitches = 3000000;
    if (C.maxTime == 0) C.maxTime = 3600.0;
    if (C.tickns == 0) C.tickns = 20;
    rs = C.seed * 0x2545F4914F6CDD1Dull + 1;
    hs = C.seed * 0xD1342543DE82EF95ull + 77;
    // stay on one processor: hand-overs are cheaper
    cpu_set_t all, one;
    CPU_ZERO(&one);
    if (sched_getaffinity(0, sizeof(all), &all) == 0) {
        int k, n = CPU_COUNT(&all), w = n ? (int)((C.seed + getpid()) % n) : 0;
        for (k = 0; k < CPU_SETSIZE; k++) if (CPU_ISSET(k, &all) && w-- == 0) { CPU_SET(k, &one); break; }
        sched_setaffinity(0, sizeof(one), &one);
    }
    self = 0; nT = 1; cur = 0;
    T[0].state = T_READY;
    T[0].tid = pthread_self();
    T[0].prio = (int)(xs(&rs) % 1000);
    set_countdown();
    vs_enabled = true;
}

static void *tramp(void *arg) {
    vthread *t = arg;
    self = (int)(t - T);
    fwait(&t->go);
    void *r = t->fn(t->arg);
    inside = 1;
    t->ret = r;
    observe();
    if (vs_enabled) {
        t->state = T_DONE;
        int k;
        for (k = 0; k < nT; k++) if (T[k].state == T_JOIN && T[k].joinee == self) T[k].state = T_READY;
        // hand over
        switches++;
        int nx = pick();
        set_countdown();
        cur = nx;
        fpost(&T[nx].go);
    }
    return r;
}

int __wrap_pthread_create(pthread_t *tid, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (!vs_enabled || self < 0) return __real_pthread_create(tid, attr, fn, arg);
    int k;
    for (k = 1; k < nT; k++) if (T[k].state == T_FREE) break;
    if (k >= VS_MAXT) giveup("too many threads", 44);
    if (k == nT) nT++;
    vthread *t = &T[k];
    memset(t, 0, sizeof(*t));
    t->fn = fn; t->arg = arg; t->prio = (int)(xs(&rs) % 1000);
    int r = __real_pthread_create(&t->tid, attr, tramp, t);
    if (r) { t->state = T_FREE; return r; }
    *tid = t->tid;
    t->state = T_READY;
    vs_yield();
    return 0;
}

int __wrap_pthread_join(pthread_t tid, void **ret) {
    if (!vs_enabled || self < 0) return __real_pthread_join(tid, ret);
    int k;
    for (k = 0; k < nT; k++) if (T[k].state != T_FREE && T[k].tid == tid) break;
    if (k == nT) {
        fprintf(stderr, "VSCHED join of unknown thread\n");
        return ESRCH;
    }
    if (T[k].state != T_DONE) { T[self].joinee = k; block(T_JOIN); } else vs_yield();
    void *r;
    int rc = __real_pthread_join(tid, &r);
    T[k].state = T_FREE;
    T[k].tid = 0;
    if (ret) *ret = r;
    return rc;
}

// ---- mutexes: keyed by address
#define NM 1024
static struct { void *m; int owner; int rec, depth; } M[NM];
static int mslot(void *m) {
    unsigned h = (unsigned)(((uintptr_t)m >> 3) % NM), n = 0;
    while (M[h].m && M[h].m != m && n++ < NM) h = (h + 1) % NM;
    if (!M[h].m) { M[h].m = m; M[h].owner = -1; }
    return (int)h;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    memset(m, 0, sizeof(*m));
    int h = mslot(m), type = 0;
    if (a) pthread_mutexattr_gettype(a, &type);
    M[h].owner = -1;
    M[h].rec = type == PTHREAD_MUTEX_RECURSIVE;
    M[h].depth = 0;
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { int h = mslot(m); M[h].owner = -1; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!vs_enabled || self < 0) return 0;
    vs_yield();
    int h = mslot(m);
    if (M[h].rec && M[h].owner == self) { M[h].depth++; return 0; }
    // waiting for a lock that is not aligned is an error to the kernel, on which the C library ends the program
    if (M[h].owner >= 0 && (uintptr_t)m % sizeof(int)) giveup("misaligned lock", 42);
    while (M[h].owner >= 0) { T[self].obj = m; block(T_MUTEX); }
    M[h].owner = self;
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!vs_enabled || self < 0) return 0;
    vs_yield();
    int h = mslot(m);
    if (M[h].owner >= 0) return EBUSY;
    M[h].owner = self;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    int h = mslot(m);
    if (M[h].depth) { M[h].depth--; return 0; }
    M[h].owner = -1;
    if (!vs_enabled || self < 0) return 0;
    int k;
    for (k = 0; k < nT; k++) if (T[k].state == T_MUTEX && T[k].obj == m) T[k].state = T_READY;
    vs_yield();
    return 0;
}
// ---- condition variables
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    int h = mslot(m), k;
    M[h].owner = -1;
    for (k = 0; k < nT; k++) if (T[k].state == T_MUTEX && T[k].obj == m) T[k].state = T_READY;
    T[self].obj = c; T[self].hasWake = false;
    block(T_COND);
    // waiting for a lock that is not aligned is an error to the kernel, on which the C library ends the program
    if (M[h].owner >= 0 && (uintptr_t)m % sizeof(int)) giveup("misaligned lock", 42);
    while (M[h].owner >= 0) { T[self].obj = m; block(T_MUTEX); }
    M[h].owner = self;
    return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    int h = mslot(m), k;
    M[h].owner = -1;
    for (k = 0; k < nT; k++) if (T[k].state == T_MUTEX && T[k].obj == m) T[k].state = T_READY;
    T[self].obj = c; T[self].hasWake = true;
    double dt = (double)ts->tv_sec + 1e-9 * ts->tv_nsec - vs_epoch;
    T[self].wake = dt > 0 ? (uint64_t)(dt * 1e9) : 0;
    T[self].timedOut = false;
    block(T_COND);
    bool to = T[self].timedOut;
    // waiting for a lock that is not aligned is an error to the kernel, on which the C library ends the program
    if (M[h].owner >= 0 && (uintptr_t)m % sizeof(int)) giveup("misaligned lock", 42);
    while (M[h].owner >= 0) { T[self].obj = m; block(T_MUTEX); }
    M[h].owner = self;
    return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
    int k;
    for (k = 0; k < nT; k++) if (T[k].state == T_COND && T[k].obj == c) { T[k].timedOut = false; T[k].state = T_READY; break; }
    vs_yield();
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
    int k;
    for (k = 0; k < nT; k++) if (T[k].state == T_COND && T[k].obj == c) { T[k].timedOut = false; T[k].state = T_READY; }
    vs_yield();
    return 0;
}
// ---- semaphores: the sem_t storage holds our own counter
typedef struct { int value; char name[48]; bool used, named; } vsem;
#define NS 256
static vsem S[NS];
sem_t *__wrap_sem_open(const char *name, int oflag, ...) {
    int k, f = -1;
    unsigned value = 0;
    va_list ap;
    va_start(ap, oflag);
    if (oflag & O_CREAT) { (void)va_arg(ap, int); value = va_arg(ap, unsigned); }
    va_end(ap);
    for (k = 0; k < NS; k++) {
        if (S[k].used && S[k].named && !strcmp(S[k].name, name)) {
            if (oflag & O_EXCL) { errno = EEXIST; return SEM_FAILED; }
            return (sem_t *)&S[k];
        }
        if (!S[k].used && f < 0) f = k;
    }
    if (f < 0) giveup("too many semaphores", 44);
    S[f].used = S[f].named = true;
    S[f].value = (int)value;
    snprintf(S[f].name, sizeof(S[f].name), "%s", name);
    return (sem_t *)&S[f];
}
int __wrap_sem_unlink(const char *name) {
    int k;
    for (k = 0; k < NS; k++) if (S[k].used && S[k].named && !strcmp(S[k].name, name)) { S[k].named = false; return 0; }
    errno = ENOENT;
    return -1;
}
int __wrap_sem_close(sem_t *s) { return 0; }
int __wrap_sem_init(sem_t *s, int sh, unsigned v) { *(int *)s = (int)v; return 0; }
int __wrap_sem_destroy(sem_t *s) { return 0; }
int __wrap_sem_getvalue(sem_t *s, int *v) { *v = *(int *)s; return 0; }
int __wrap_sem_post(sem_t *s) {
    (*(int *)s)++;
    if (!vs_enabled || self < 0) return 0;
    int k;
    for (k = 0; k < nT; k++) if (T[k].state == T_SEM && T[k].obj == s) { T[k].timedOut = false; T[k].state = T_READY; }
    vs_yield();
    return 0;
}
int __wrap_sem_wait(sem_t *s) {
    vs_yield();
    while (*(int *)s <= 0) { T[self].obj = s; T[self].hasWake = false; block(T_SEM); }
    (*(int *)s)--;
    return 0;
}
int __wrap_sem_trywait(sem_t *s) {
    vs_yield();
    if (*(int *)s <= 0) { errno = EAGAIN; return -1; }
    (*(int *)s)--;
    return 0;
}
int __wrap_sem_timedwait(sem_t *s, const struct timespec *ts) {
    vs_yield();
    double dt = (double)ts->tv_sec + 1e-9 * ts->tv_nsec - vs_epoch;
    uint64_t w = dt > 0 ? (uint64_t)(dt * 1e9) : 0;
    while (*(int *)s <= 0) {
        if (now_ns >= w) { errno = ETIMEDOUT; return -1; }
        T[self].obj = s; T[self].hasWake = true; T[self].wake = w;
        block(T_SEM);
        T[self].hasWake = false;
    }
    (*(int *)s)--;
    return 0;
}
// ---- time
int __wrap_usleep(useconds_t us) {
    if (!vs_enabled || self < 0) return __real_usleep(us);
    vs_advance(us * 1e-6);
    return 0;
}
unsigned __wrap_sleep(unsigned s) {
    if (!vs_enabled || self < 0) return __real_sleep(s);
    vs_advance((double)s);
    return 0;
}
int __wrap_nanosleep(const struct timespec *ts, struct timespec *rem) {
    if (!vs_enabled || self < 0) return __real_nanosleep(ts, rem);
    vs_advance((double)ts->tv_sec + 1e-9 * ts->tv_nsec);
    return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z) {
    if (!vs_enabled) { now_ns += 1000; }
    double e = vs_epoch;
    uint64_t us = (uint64_t)(e * 1e6) + now_ns / 1000;
    tv->tv_sec = us / 1000000;
    tv->tv_usec = us % 1000000;
    return 0;
}
time_t __wrap_time(time_t *t) {
    struct timeval tv;
    __wrap_gettimeofday(&tv, NULL);
    if (t) *t = tv.tv_sec;
    return tv.tv_sec;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
    struct timeval tv;
    __wrap_gettimeofday(&tv, NULL);
    ts->tv_sec = tv.tv_sec;
    ts->tv_nsec = tv.tv_usec * 1000;
    return 0;
}
// ---- descriptors
static bool issock(int fd) {
    struct stat st;
    return fstat(fd, &st) == 0 && (S_ISSOCK(st.st_mode) || S_ISFIFO(st.st_mode));
}
static void waitfd(int fd, short ev) {
    struct pollfd p = {fd, ev, 0};
    int fl = fcntl(fd, F_GETFL);
    if (fl >= 0 && (fl & O_NONBLOCK)) { vs_yield(); return; }
    if (poll(&p, 1, 0) > 0) { vs_yield(); return; }
    T[self].pfd = &p; T[self].npfd = 1; T[self].hasWake = false;
    block(T_FD);
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    if (!vs_enabled || self < 0) return __real_select(n, r, w, e, tv);
    struct pollfd p[64];
    int k, c = 0;
    for (k = 0; k < n && c < 64; k++) {
        short ev = 0;
        if (r && FD_ISSET(k, r)) ev |= POLLIN;
        if (w && FD_ISSET(k, w)) ev |= POLLOUT;
        if (e && FD_ISSET(k, e)) ev |= POLLPRI;
        if (ev) { p[c].fd = k; p[c].events = ev; p[c].revents = 0; c++; }
    }
    T[self].timedOut = false;
    if (poll(p, c, 0) <= 0) {
        T[self].pfd = p; T[self].npfd = c;
        T[self].hasWake = tv != NULL;
        if (tv) T[self].wake = now_ns + (uint64_t)tv->tv_sec * 1000000000ull + (uint64_t)tv->tv_usec * 1000ull;
        block(T_FD);
        T[self].hasWake = false;
    } else vs_yield();
    struct timeval z = {0, 0};
    return __real_select(n, r, w, e, &z);
}
int (*vs_rxfault)(int fd, size_t *n, int flags) = NULL;   // an errno to fail with, or 0 (and perhaps fewer bytes)
ssize_t __wrap_read(int fd, void *b, size_t n) {
    int e;
    if (vs_enabled && self >= 0 && !inside && issock(fd)) {
        waitfd(fd, POLLIN);
        if (vs_rxfault && (e = vs_rxfault(fd, &n, 0))) { errno = e; return -1; }
    }
    return __real_read(fd, b, n);
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) {
    int e;
    if (vs_enabled && self >= 0) {
        if (fl & MSG_DONTWAIT) vs_yield(); else waitfd(fd, POLLIN);
        if (vs_rxfault && (e = vs_rxfault(fd, &n, fl))) { errno = e; return -1; }
    }
    return __real_recv(fd, b, n, fl);
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) {
    if (vs_enabled && self >= 0) waitfd(fd, POLLIN);
    if (a && l && *l >= sizeof(struct sockaddr_in)) {
        struct sockaddr_in *i = (struct sockaddr_in *)a;
        memset(i, 0, sizeof(*i));
        i->sin_family = AF_INET; i->sin_addr.s_addr = htonl(INADDR_LOOPBACK); i->sin_port = htons(40000);
        *l = sizeof(*i);
        return __real_accept(fd, NULL, NULL);
    }
    return __real_accept(fd, a, l);
}
int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *s) { return 0; }



// ---- trace
static FILE *trf = NULL;
static int trn = 0;
int trLines(void) { return trn; }
void tr_open(const char *path) { trf = fopen(path, "w"); if (!trf) { perror(path); _exit(45); } }
void tr(const char *fmt, ...) {
    if (!trf) return;
    inside++;
    trn++;
    va_list ap;
    va_start(ap, fmt);
    vfprintf(trf, fmt, ap);
    va_end(ap);
    fputc('\n', trf);
    inside--;
}
void tr_close(void) { if (trf) { fflush(trf); fclose(trf); trf = NULL; } }
