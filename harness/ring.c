// C02: drives the real pulse ring filter under seeded schedules and logs inputs and outputs gate by gate.
#include <RadarKit.h>
#include "vsched.h"

static RKRadarDesc desc;
static RKPulseRingFilterEngine *engine;
static RKBuffer pulses;
static RKConfig *configs;
static uint32_t configIndex = 1, pulseIndex = 0;
static int depth, cores, N, gates, cap, rot;
static uint32_t *lastS; static uint64_t *num;
static bool quit = false;
static volatile int fedCount = 0, readyCount = 0;

// looked up once: the observer must not run instrumented code
static RKPulse **slots; static RKIQZ (*zz)[2];
static RKPulse *slot(int k) { return slots[k]; }

static RKFloat *cell(RKPulse *p, int g) {
    int u = (g + rot) % 4;
    int k = 0;
    while (slots[k] != p) k++;
    RKIQZ z = zz[k][u / 2];
    return (u % 2 ? z.q : z.i) + g;
}

static void gateString(char *s, RKPulse *p) {
    int g;
    for (g = 0; g < cap; g++) s += sprintf(s, "%s%ld", g ? "," : "", lrintf(*cell(p, g)));
}

static void observer(void) {
    static int busy = 0;
    char b[2048];
    int i, m = (int)vs_alive();
    (void)m;
    if (busy) return;
    busy = 1;
    // oldest first so that marks set in one step are logged in arrival order
    int first = fedCount > depth ? fedCount - depth : 0;
    for (i = first; i < fedCount; i++) {
        int k = i % depth;
        RKPulse *p = slot(k);
        uint32_t s = p->header.s, o = lastS[k];
        if (s == o) continue;
        lastS[k] = s;
        uint32_t gain = s & ~o, lost = o & ~s;
        if (lost) { tr("[\"X\",%d,%u,%u]", i + 1, o, s); continue; }
        if (gain & RKPulseStatusRingInspected) tr("[\"I\",%d]", i + 1);
        if (gain & RKPulseStatusRingProcessed) {
            gateString(b, p);
            tr("[\"O\",%d,%d,%d,[%s]]", i + 1, s & RKPulseStatusRingFiltered ? 1 : 0, s & RKPulseStatusRingSkipped ? 1 : 0, b);
        }
    }
    busy = 0;
}

// plays the pulse compressor: marks pulses processed, not necessarily in order
static bool *skips;
static void *processor(void *x) {
    int out = 0;
    bool *d = calloc(N + 8, 1);
    while (!quit) {
        while (out < fedCount && d[out]) out++;
        if (out == fedCount) { usleep(20 + vs_randn(100)); continue; }
        int w = fedCount - out;
        if (w > 3) w = 3;
        int n = out + vs_randn(w);
        if (d[n]) continue;
        d[n] = true;
        RKPulse *p = slot(n % depth);
        p->header.s |= RKPulseStatusInspected;
        p->header.s |= (skips[n] ? RKPulseStatusSkipped : RKPulseStatusCompressed);
        p->header.s |= RKPulseStatusDownSampled;
        vs_yield();
        p->header.s |= RKPulseStatusProcessed;
        readyCount++;
        if (vs_randn(6) == 0) usleep(vs_randn(200));
    }
    return NULL;
}

static void ended(const char *why) { tr("[\"%s\"]", why); }

static void filterEvent(void) {
    // the filters stay within small integers
    RKIIRFilter f;
    memset(&f, 0, sizeof(f));
    int i, t = vs_randn(5), shape = vs_randn(4);
    char bs[64] = "", as[64] = "";
    static int total = 0;
    f.bLength = 1 + vs_randn(RKMaximumIIRFilterTaps);
    // repeated integrators would leave the range of exact floats
    if (total++ > 2) shape = 3;
    int a[4] = {1, 0, 0, 0};
    f.aLength = 1;
    if (shape == 0) { f.aLength = 2; a[1] = -1; }
    if (shape == 1) { f.aLength = 2; a[1] = 1; }
    if (shape == 2) { f.aLength = 3; a[2] = vs_randn(2) ? 1 : -1; }
    for (i = 0; i < f.bLength; i++) {
        int v = (int)vs_randn(5) - 2;
        f.B[i].i = v;
        sprintf(bs + strlen(bs), "%s%d", i ? "," : "", v);
    }
    for (i = 0; i < f.aLength; i++) {
        f.A[i].i = a[i];
        sprintf(as + strlen(as), "%s%d", i ? "," : "", a[i]);
    }
    RKPulseRingFilterEngineSetFilter(engine, &f);
    if (t) RKPulseRingFilterEngineEnableFilter(engine); else RKPulseRingFilterEngineDisableFilter(engine);
    tr("[\"A\",%d,[%s],[%s]]", t ? 1 : 0, bs, as);
}

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    vs_conf c;
    vs_conf_from_seed(&c, seed);
    vs_giveup = ended;
    tr_open(argv[2]);
    RKSetWantScreenOutput(false);
    RKSetRootDataFolder(argv[3]);
    vs_start(&c);
    static const int depths[] = {5, 8, 12, 16, 24, 40, 19, 30};
    int j, k;
    depth = depths[vs_randn(8)];
    cores = 1 + vs_randn(5);
    N = depth + vs_randn(40);
    cap = 48 + 16 * vs_randn(2);
    gates = 1 + vs_randn(cap);
    if (vs_randn(6) == 0) gates = cap;
    rot = vs_randn(4);
    memset(&desc, 0, sizeof(desc));
    desc.pulseBufferDepth = depth;
    desc.pulseCapacity = cap;
    desc.pulseToRayRatio = 1;
    desc.configBufferDepth = 4;
    configs = calloc(4, sizeof(RKConfig));
    int down = vs_randn(2) ? cap : gates, conf = vs_randn(2) ? gates : cap;
    if (down > gates && conf > gates) down = gates;
    for (k = 0; k < 4; k++) configs[k].ringFilterGateCount = conf;
    RKPulseBufferAlloc(&pulses, cap, depth);
    slots = calloc(depth, sizeof(*slots)); zz = calloc(depth, sizeof(*zz));
    for (k = 0; k < depth; k++) {
        slots[k] = RKGetPulseFromBuffer(pulses, k);
        zz[k][0] = RKGetSplitComplexDataFromPulse(slots[k], 0);
        zz[k][1] = RKGetSplitComplexDataFromPulse(slots[k], 1);
    }
    lastS = calloc(depth, sizeof(*lastS));
    num = calloc(depth, sizeof(*num));
    skips = calloc(N + 8, sizeof(bool));
    engine = RKPulseRingFilterEngineInit();
    RKPulseRingFilterEngineSetEssentials(engine, &desc, configs, &configIndex, pulses, &pulseIndex);
    RKPulseRingFilterEngineSetCoreCount(engine, cores);
    tr("{\"depth\":%d,\"cores\":%d,\"gates\":%d,\"capacity\":%d}", depth, cores, gates, cap);
    filterEvent();
    RKPulseRingFilterEngineStart(engine);
    vs_observer = observer;
    pthread_t tid;
    pthread_create(&tid, NULL, processor, NULL);
    char b[2048];
    int segment = 8 + vs_randn(40), dead = 0;
    int skipRate = vs_randn(3) ? 0 : 3;
    for (k = 0; k < N && !dead; k++) {
        RKPulse *p = slot(k % depth);
        double t0 = vs_now();
        // never run into slots which are still in use
        while (k >= depth - 1 && !(slot((k + 1) % depth)->header.s & RKPulseStatusRingProcessed)) {
            usleep(100);
            if (vs_now() - t0 > 60.0) { dead = 1; break; }
        }
        observer();
        p->header.s = 0;
        lastS[k % depth] = 0;
        p->header.i = k;
        p->header.gateCount = cap;
        p->header.downSampledGateCount = down;
        for (j = 0; j < cap; j++) *cell(p, j) = (int)vs_randn(7) - 3;
        skips[k] = skipRate && vs_randn(skipRate) == 0;
        gateString(b, p);
        tr("[\"F\",%d,%d,[%s]]", k + 1, skips[k], b);
        p->header.s = RKPulseStatusHasIQData;
        lastS[k % depth] = p->header.s;
        fedCount = k + 1;
        pulseIndex = RKNextModuloS(pulseIndex, depth);
        vs_yield();
        if (vs_randn(10) == 0) usleep(vs_randn(2000));
        if (--segment == 0) {
            segment = 8 + vs_randn(40);
            t0 = vs_now();
            while (!(slot(k % depth)->header.s & RKPulseStatusRingProcessed) && vs_now() - t0 < 60.0) usleep(100);
            usleep(2000);
            observer();
            filterEvent();
        }
    }
    double t0 = vs_now();
    while (!(slot((N - 1) % depth)->header.s & RKPulseStatusRingProcessed) && vs_now() - t0 < 60.0) usleep(1000);
    usleep(2000);
    observer();
    tr("[\"E\"]");
    quit = true;
    RKPulseRingFilterEngineStop(engine);
    pthread_join(tid, NULL);
    vs_observer = NULL;
    tr("[\"end\",%d,%lu,%lu]", vs_alive(), vs_switches(), vs_blocks());
    tr_close();
    fflush(stdout);
    _exit(0);
}
