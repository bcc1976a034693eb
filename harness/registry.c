// C15: threads register, remove, look up and complete products of a sweep engine.
// usage: registry <seed> <out> <root>
#include <RadarKit.h>
#include "vsched.h"

static RKSweepEngine *engine;
static RKRadarDesc desc;
size_t __real_RKProductBufferAlloc(RKProduct **, const uint32_t, const uint32_t, const uint32_t);
size_t __wrap_RKProductBufferAlloc(RKProduct **b, const uint32_t depth, const uint32_t rc, const uint32_t gc) { return __real_RKProductBufferAlloc(b, depth, 10, 10); }
static RKSweep *sweep;
static int label = 0, nthreads, nops, cap;
static int known[400], nknown = 0;

static void quiet(void) {
    char s[4000] = "";
    int k, n = 0;
    for (k = 0; k < cap; k++) {
        RKProduct *p = &engine->productBuffer[k];
        if (!(p->flag & RKProductStatusActive)) continue;
        sprintf(s + strlen(s), "%s[%d,%d]", n++ ? "," : "", (int)p->pid, atoi(p->desc.name + 1));
    }
    tr("[\"Q\",[%s]]", s);
}
static int pick(void) {
    if (nknown == 0 || vs_randn(12) == 0) return vs_randn(70);
    return vs_randn(4) ? known[nknown - 1 - vs_randn(nknown < 24 ? nknown : 24)] : known[vs_randn(nknown)];
}
static int grow;
static void *worker(void *x) {
    int t = (int)(long)x, k, id, v;
    for (k = 0; k < nops; k++) {
        int o = vs_randn(10);
        if (o < grow) {
            RKProductDesc d;
            memset(&d, 0, sizeof(d));
            int n = ++label;
            sprintf(d.name, "P%d", n); sprintf(d.symbol, "u%d", n % 100);
            tr("[\"c\",%d,\"D\",%d]", t, n);
            v = RKSweepEngineDescribeProduct(engine, d);
            tr("[\"r\",%d,\"D\",%d]", t, v);
            if (v && nknown < 400) known[nknown++] = v;
        } else if (o < 8) {
            id = pick();
            tr("[\"c\",%d,\"U\",%d]", t, id);
            v = RKSweepEngineUndescribeProduct(engine, id);
            tr("[\"r\",%d,\"U\",%d]", t, v == RKResultSuccess ? 1 : 0);
        } else {
            id = pick();
            tr("[\"c\",%d,\"G\",%d]", t, id);
            RKProduct *p = RKSweepEngineGetVacantProduct(engine, sweep, id);
            tr("[\"r\",%d,\"G\",%d]", t, p ? (int)(p - engine->productBuffer) : -1);
            if (p && vs_randn(4)) {
                if (vs_randn(2)) usleep(vs_randn(100));
                tr("[\"c\",%d,\"S\",0]", t);
                RKSweepEngineSetProductComplete(engine, sweep, p);
                tr("[\"r\",%d,\"S\",0]", t);
            }
        }
        if (vs_randn(4) == 0) usleep(vs_randn(100));
    }
    return NULL;
}
static void ended(const char *why) { tr("[\"%s\"]", why); }

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    vs_conf c;
    int k, ph;
    vs_conf_from_seed(&c, seed);
    vs_giveup = ended;
    tr_open(argv[2]);
    RKSetWantScreenOutput(false);
    RKSetRootDataFolder(argv[3]);
    vs_start(&c);
    engine = RKSweepEngineInit();
    engine->radarDescription = &desc;
    cap = RKMaximumProductBufferDepth;
    sweep = calloc(1, sizeof(RKSweep));
    nthreads = 1 + vs_randn(4); nops = 5 + vs_randn(nthreads > 2 ? 15 : 30);
    tr("{\"cap\":%d,\"threads\":%d}", cap, nthreads);
    for (ph = 0; ph < 3; ph++) {
        pthread_t tid[8];
        grow = ph == 0 ? 5 + vs_randn(6) : ph == 1 ? 3 + vs_randn(4) : 1 + vs_randn(8);
        if (grow > 10) grow = 10;
        for (k = 0; k < nthreads; k++) pthread_create(&tid[k], NULL, worker, (void *)(long)(k + 1));
        for (k = 0; k < nthreads; k++) pthread_join(tid[k], NULL);
        quiet();
    }
    // down to the last one
    tr("[\"end\",%d,%lu,%lu]", vs_alive(), vs_switches(), vs_blocks());
    tr_close();
    _exit(0);
}
