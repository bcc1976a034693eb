// C01: drives the real pulse compressor under seeded schedules and logs what happens to every pulse.
// usage: pulse <seed> <out>
#include <RadarKit.h>
#include "vsched.h"
#include <assert.h>

static RKRadarDesc desc;
static RKPulseEngine *engine;
static RKBuffer pulses;
static RKConfig *configs;
static uint32_t configIndex = 0, pulseIndex = 0;
static int depth, cores, groups, reader, blocking, N, stride;
static uint32_t *lastS; static uint64_t *lastI;
static bool quitReader = false;
static bool expectVacate = false;

static RKPulse *slot(int k) {
    static size_t sz = 0;
    if (!sz) { RKPulse *p = (RKPulse *)pulses; sz = sizeof(p->headerBytes) + 2 * p->header.capacity * (sizeof(RKInt16C) + 4 * sizeof(RKFloat)); }
    return (RKPulse *)((char *)pulses + k * sz);
}

static void observer(void) {
    int k;
    static int lastLag[64];
    for (k = 0; k < depth; k++) {
        RKPulse *p = slot(k);
        uint32_t s = p->header.s, o = lastS[k];
        if (s == o) continue;
        lastS[k] = s;
        int n = (int)lastI[k] + 1;
        if (s == RKPulseStatusVacant) { if (o & RKPulseStatusHasIQData) tr("[\"V\",%d]", n); continue; }
        if (o == 0) { n = (int)p->header.i + 1; lastI[k] = p->header.i; }
        uint32_t gain = s & ~o, lost = o & ~s;
        if (lost || p->header.i != lastI[k]) { tr("[\"X\",%d,%u,%u]", n, o, s); continue; }
        if (gain & RKPulseStatusHasIQData) tr("[\"F\",%d,%d]", n, p->header.gateCount);
        if (gain & RKPulseStatusInspected) tr("[\"I\",%d]", n);
        if (gain & RKPulseStatusCompressed) tr("[\"C\",%d]", n);
        if (gain & RKPulseStatusSkipped) tr("[\"S\",%d]", n);
        if (gain & RKPulseStatusDownSampled) tr("[\"D\",%d]", n);
        if (gain & RKPulseStatusProcessed) tr("[\"P\",%d,%d,%d]", n, p->header.gateCount, p->header.downSampledGateCount);
        if (gain & RKPulseStatusConsumed) tr("[\"R\",%d]", n);
    }
    if (engine && engine->workers && (engine->state & RKEngineStateActive)) {
        for (k = 0; k < engine->coreCount; k++) {
            int v = (int)(engine->workers[k].lag * depth + 0.5f);
            if (v != lastLag[k]) { lastLag[k] = v; tr("[\"L\",%d,%d]", k, v); }
        }
    }
}

static void compressor(RKUserModule m, RKCompressionScratch *s) {
    tr("[\"Z\",%d,%d,%d,%d]", (int)s->pulse->header.i + 1, s->waveformGroupdId, s->waveformFilterId, (int)s->filter[0].i);
    int k = (int)vs_randn(4);
    while (k--) vs_yield();
    if (vs_randn(8) == 0) vs_advance(1e-6 * vs_randn(400));
}

static void *readerThread(void *x) {
    int n = 0;
    while (!quitReader) {
        RKPulse *p = RKPulseEngineGetProcessedPulse(engine, blocking);
        if (p == NULL) { usleep(50 + vs_randn(200)); continue; }
        if (quitReader || !(engine->state & RKEngineStateWantActive)) break;
        tr("[\"G\",%d]", (int)p->header.i + 1);
        n++;
        if (vs_randn(5) == 0) usleep(vs_randn(300));
        if (n == N) break;
    }
    return NULL;
}

static void ended(const char *why) { tr("[\"%s\"]", why); }

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    vs_conf c;
    vs_conf_from_seed(&c, seed);
    vs_giveup = ended;
    tr_open(argv[2]);
    RKSetWantScreenOutput(false);
    RKSetRootDataFolder(argv[3]);
    vs_start(&c);

    static const int depths[] = {8, 12, 16, 24, 40, 48, 19, 30};
    depth = depths[vs_randn(8)];
    cores = 1 + vs_randn(4);
    groups = 1 + vs_randn(4);
    reader = vs_randn(3) != 0;
    blocking = vs_randn(2);
    N = depth * 2 + vs_randn(depth * 2);
    stride = 1 + vs_randn(3);
    int flood = vs_randn(3);
    int cap = 64;
    int j, g, k;
    memset(&desc, 0, sizeof(desc));
    desc.pulseBufferDepth = depth;
    desc.pulseCapacity = cap;
    desc.pulseToRayRatio = stride;
    desc.configBufferDepth = 4;
    configs = calloc(4, sizeof(RKConfig));
    RKPulseBufferAlloc(&pulses, cap, depth);
    lastS = calloc(depth, sizeof(*lastS));
    lastI = calloc(depth, sizeof(*lastI));
    for (k = 0; k < depth; k++) lastI[k] = slot(k)->header.i;
    RKFFTModule *fft = RKFFTModuleInit(cap, 0);
    engine = RKPulseEngineInit();
    RKPulseEngineSetEssentials(engine, &desc, fft, configs, &configIndex, pulses, &pulseIndex);
    RKPulseEngineSetCoreCount(engine, cores);
    RKPulseEngineSetCompressor(engine, compressor, NULL);
    RKPulseEngineResetFilters(engine);
    char fc[128] = "", bl[128] = "";
    for (g = 0; g < groups; g++) {
        int n = 1 + vs_randn(3), b = 0;
        for (j = 0; j < n; j++) {
            RKComplex f[8] = {{10.0f * g + j, 0.0f}};
            RKFilterAnchor a = RKFilterAnchorDefault;
            a.length = 1 + vs_randn(3);
            a.maxDataLength = cap;
            b += a.length;
            RKPulseEngineSetGroupFilter(engine, f, a, g, j);
        }
        sprintf(fc + strlen(fc), "%s%d", g ? "," : "", n);
        sprintf(bl + strlen(bl), "%s%d", g ? "," : "", b);
    }
    tr("{\"depth\":%d,\"cores\":%d,\"groups\":%d,\"fc\":[%s],\"blind\":[%s],\"base\":0,\"reader\":%s,\"stride\":%d}", depth, cores, groups, fc, bl, reader ? "true" : "false", stride);

    RKPulseEngineStart(engine);
    vs_observer = observer;
    pthread_t tid;
    if (reader) pthread_create(&tid, NULL, readerThread, NULL);

    RKPulseStatus mask = reader ? RKPulseStatusConsumed : RKPulseStatusProcessed;
    int burst = 0;
    for (k = 0; k < N; k++) {
        // a well-behaved feeder never runs into slots that are still in use
        RKPulse *p = RKPulseEngineGetVacantPulse(engine, mask);
        if ((int)p->header.i != k) tr("[\"X\",%d,%d,0]", k, (int)p->header.i);
        p->header.gateCount = 24 + vs_randn(cap - 24);
        p->header.configIndex = vs_randn(4);
        for (j = 0; j < 2; j++) RKGetInt16CDataFromPulse(p, j)[0].i = k;
        if (vs_randn(6) == 0) vs_yield();
        p->header.s = RKPulseStatusHasIQData;
        vs_yield();
        if (flood == 0 || (flood == 1 && ++burst > (int)vs_randn(3 * depth))) { burst = 0; usleep(vs_randn(500)); }
    }
    // pause: everything must settle
    double t0 = vs_now();
    while (vs_now() - t0 < 120.0) {
        int done = 1;
        for (k = 0; k < depth; k++) {
            uint32_t s = slot(k)->header.s;
            if (s && !(s & RKPulseStatusProcessed)) done = 0;
            if (s && reader && !(s & RKPulseStatusConsumed)) done = 0;
        }
        if (done && vs_now() - t0 > 0.2) break;
        usleep(5000);
    }
    if (vs_randn(2)) RKPulseEngineWaitWhileBusy(engine);
    observer();
    tr("[\"E\"]");
    quitReader = true;
    RKPulseEngineStop(engine);
    if (reader) pthread_join(tid, NULL);
    vs_observer = NULL;
    tr("[\"end\",%d,%lu,%lu]", vs_alive(), vs_switches(), vs_blocks());
    tr_close();
    fflush(stdout);
    _exit(0);
}
