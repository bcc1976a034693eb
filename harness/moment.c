// C04: drives the real moment engine under seeded schedules; pulses are tagged 0, 1, 2, ... in timeDouble.
// usage: moment <seed> <out> <root>
#include <RadarKit.h>
#include "vsched.h"

static RKRadarDesc desc;
static RKMomentEngine *engine;
static RKBuffer pulses, rays;
static RKConfig *configs;
static uint32_t configIndex = 0, pulseIndex = 0, rayIndex = 0;
static int pdepth, rdepth, cores, excl, reader, blocking, N, hot, big;
static RKPulse *P[4096];
static RKRay *R[256];
static uint32_t lastS[256];
static uint32_t lastX;
static int rtag[256];                 // tag of the ray that became ready in each slot
static int rend[65536];               // end pulse of each ready ray, -1 if not yet
static int nready, ngot, readyEnd = -1, gotEnd = -1;
static int nx = 0;
static bool quitAll = false;
static const int cap = 32;
enum { BAD = -999 };

static int slotOf(uint32_t k) { return (int)k; }
static int e8(float x) { return (int)lrintf(x * 8.0f); }

static void observer(void) {
    int k, j;
    for (k = 0; k < rdepth; k++) {
        RKRay *r = R[k];
        uint32_t s = r->header.s, o = lastS[k];
        if (s == o) continue;
        lastS[k] = s;
        if ((s & RKRayStatusReady) && !(o & RKRayStatusReady)) {
            int t = (int)r->header.i, a = (int)r->header.startTimeDouble, e = (int)r->header.endTimeDouble, used = 1, junk = 0;
            for (j = a; j <= e && j < a + pdepth; j++) {
                if (!(P[j % pdepth]->header.s & RKPulseStatusUsedForMoments) || (int)P[j % pdepth]->header.timeDouble != j) used = 0;
            }
            float *z = (float *)0; int zi = BAD, vi = BAD;
            uint8_t *u = (uint8_t *)((void *)r->data + r->header.capacity * RKMomentCount * sizeof(int16_t));
            z = (float *)((void *)u + RKBaseProductCount * r->header.capacity);
            if (s & RKRayStatusProcessed) {
                zi = (int)z[RKBaseProductIndexZ * r->header.capacity];
                vi = (int)z[RKBaseProductIndexV * r->header.capacity];
            } else {
                for (j = 0; j < (int)(RKBaseProductCount * r->header.capacity); j++) if (u[j] != 0 || z[j] == z[j]) junk++;
            }
            tr("[\"R\",%d,%d,%d,%d,[%d,%d,%d,%d],%d,%d,%d,%d,%d,%d,%d,%d,%d,%d]", t, k, a, e,
               e8(r->header.startAzimuth), e8(r->header.endAzimuth), e8(r->header.startElevation), e8(r->header.endElevation),
               r->header.pulseCount, r->header.marker, s & RKRayStatusProcessed ? 1 : 0, s & RKRayStatusSkipped ? 1 : 0,
               r->header.configIndex, r->header.gateCount, e8(r->header.sweepElevation), used, zi, vi);
            if (junk) tr("[\"J\",%d,%d]", t, junk);
            rtag[k] = t;
            if (t >= 0 && t < 65536) {
                rend[t] = e;
                while (nready < 65535 && rend[nready] >= 0) readyEnd = rend[nready++];
            }
        }
        if ((s & RKRayStatusConsumed) && !(o & RKRayStatusConsumed)) {
            tr("[\"K\",%d]", rtag[k]);
            gotEnd = rend[rtag[k]]; ngot = rtag[k] + 1;
        }
        if ((o & RKRayStatusReady) && !(s & RKRayStatusReady)) tr("[\"V\",%d]", rtag[k]);
    }
    if (rayIndex != lastX) { nx += ((int)rayIndex - (int)lastX + rdepth) % rdepth; lastX = rayIndex; tr("[\"X\",%u]", lastX); }
}

static int noise(RKMomentScratch *s, RKPulse **p, const uint16_t n) { s->noise[0] = s->noise[1] = 1.0f; return RKResultSuccess; }
static void calibrator(RKUserModule m, RKMomentScratch *s) {}
static int processor(RKMomentScratch *s, RKPulse **p, const uint16_t n) {
    int k, g, a = (int)p[0]->header.timeDouble, ok = 1;
    k = (int)vs_randn(4);
    while (k--) vs_yield();
    if (vs_randn(hot ? 2 : 8) == 0) vs_advance(1e-6 * vs_randn(hot ? 200000 : 3000));
    for (k = 0; k < n; k++) if ((int)p[k]->header.timeDouble != a + k) ok = 0;
    for (g = 0; g < cap; g++) {
        s->S[0][g] = s->S[1][g] = s->Q[0][g] = s->Q[1][g] = 1.0f;
        s->Z[0][g] = (float)a;
        s->V[0][g] = ok ? (float)((int)p[n - 1]->header.timeDouble) : -1.0f;
    }
    return n;
}

static void *readerThread(void *x) {
    while (!quitAll) {
        // the engine is assumed to have counted the ray whose slot is given up
        while (!quitAll && nx < ngot - MAX(1, rdepth / 8) + 1) usleep(300);
        RKRay *r = RKMomentEngineGetProcessedRay(engine, blocking);
        if (r == NULL) { if (!(engine->state & RKEngineStateWantActive)) break; usleep(100 + vs_randn(500)); continue; }
        tr("[\"G\",%d]", (int)r->header.i);
        if (vs_randn(5) == 0) usleep(vs_randn(2000));
    }
    return NULL;
}

// the other engines: give the pulses their states, out of order
static int fedCount = 0, compressed[4096];
static void *taggerThread(void *x) {
    int base = 0, j;
    uint32_t steps[3][2] = {{RKPulseStatusHasPosition, 0}, {RKPulseStatusInspected, RKPulseStatusProcessed}, {RKPulseStatusRingInspected, RKPulseStatusRingProcessed}};
    static uint8_t st[4096][3];
    memset(st, 0, sizeof(st));
    while (!quitAll) {
        int w = fedCount - base;
        if (w == 0) { usleep(100 + vs_randn(400)); continue; }
        int n = base + (int)vs_randn(w > 6 ? 6 : w), c = (int)vs_randn(3);
        RKPulse *p = P[n % pdepth];
        uint8_t *q = st[n % pdepth];
        if (c == 0 && q[0] == 0) { p->header.s |= RKPulseStatusHasPosition; q[0] = 2; }
        else if (c == 1 && q[1] == 0) { p->header.s |= RKPulseStatusInspected; q[1] = 1; }
        else if (c == 1 && q[1] == 1) { p->header.s |= (compressed[n % pdepth] ? RKPulseStatusCompressed : RKPulseStatusSkipped) | RKPulseStatusDownSampled | RKPulseStatusProcessed; q[1] = 2; }
        else if (c == 2 && q[2] == 0) { p->header.s |= RKPulseStatusRingInspected; q[2] = 1; }
        else if (c == 2 && q[2] == 1) { p->header.s |= RKPulseStatusRingProcessed; q[2] = 2; }
        while (base < fedCount && st[base % pdepth][0] == 2 && st[base % pdepth][1] == 2 && st[base % pdepth][2] == 2) { memset(st[base % pdepth], 0, 3); base++; }
        if (vs_randn(40) == 0) usleep(vs_randn(1500));
    }
    return NULL;
}

static bool settled(void) {
    static uint64_t t = 0; static int fc = -1;
    if (fc != fedCount) { fc = fedCount; t = engine->tic; return false; }
    if (engine->tic < t + 3) return false;
    if (engine->lag != 0.0f || engine->business != 0) return false;
    return !reader || ngot >= nready;
}

static void ended(const char *why) { tr("[\"%s\"]", why); }

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    vs_conf c;
    vs_conf_from_seed(&c, seed);
    vs_giveup = ended;
    tr_open(argv[2]);
    RKSetWantScreenOutput(false);
    RKSetRootDataFolder(argv[3]);
    vs_start(&c);
    int j, k;
    static const int pd[] = {24, 30, 40, 53, 64, 80}, rd[] = {8, 10, 12, 16, 19, 24};
    big = argc > 4 && atoi(argv[4]) == 1;
    hot = argc > 4 && atoi(argv[4]) == 2;
    pdepth = big ? 2500 : hot ? 80 + 40 * vs_randn(3) : pd[vs_randn(6)];
    rdepth = hot ? 180 : rd[vs_randn(6)];
    cores = 1 + vs_randn(4);
    excl = vs_randn(3) == 0;
    reader = vs_randn(3) != 0;
    blocking = vs_randn(2);
    N = big ? 2600 + vs_randn(2000) : pdepth * 3 + vs_randn(pdepth * 2);
    if (hot) N = 6 * pdepth;
    memset(&desc, 0, sizeof(desc));
    desc.pulseBufferDepth = pdepth;
    desc.rayBufferDepth = rdepth;
    desc.pulseCapacity = cap;
    desc.pulseToRayRatio = 1;
    desc.configBufferDepth = 6;
    desc.wavelength = 0.03f;
    configs = calloc(6, sizeof(RKConfig));
    static const uint32_t types[] = {RKMarkerScanTypePPI, RKMarkerScanTypeRHI, (3 << 5), RKMarkerScanTypePPI, RKMarkerNull, RKMarkerScanTypePPI};
    RKWaveform *wav = RKWaveformInitWithCountAndDepth(1, 4);
    for (k = 0; k < 6; k++) {
        configs[k].i = k; configs[k].prt[0] = 1e-3f; configs[k].SNRThreshold = -100.0f; configs[k].SQIThreshold = -1.0f;
        configs[k].startMarker = types[k]; configs[k].sweepElevation = 0.5f * k; configs[k].waveform = wav; configs[k].noise[0] = configs[k].noise[1] = 1.0f;
    }
    RKPulseBufferAlloc(&pulses, cap, pdepth);
    RKRayBufferAlloc(&rays, cap, rdepth);
    memset(rend, 0xff, sizeof(rend));
    for (k = 0; k < pdepth; k++) P[k] = RKGetPulseFromBuffer(pulses, k);
    for (k = 0; k < rdepth; k++) {
        R[k] = RKGetRayFromBuffer(rays, k);
        memset(R[k]->data, 0x5a, cap * (RKMomentCount * sizeof(int16_t) + RKBaseProductCount * (sizeof(uint8_t) + sizeof(float))));
    }
    engine = RKMomentEngineInit();
    RKFFTModule *fft = RKFFTModuleInit(16, 0);
    RKMomentEngineSetEssentials(engine, &desc, fft, configs, &configIndex, pulses, &pulseIndex, rays, &rayIndex);
    RKMomentEngineSetCoreCount(engine, cores);
    RKMomentEngineSetNoiseEstimator(engine, noise);
    RKMomentEngineSetMomentProcessor(engine, processor);
    RKMomentEngineSetCalibrator(engine, calibrator, NULL);
    RKMomentEngineSetExcludeBoundaryPulses(engine, excl);
    if (!hot || vs_randn(2)) RKMomentEngineSetVerbose(engine, 0);
    int limit = hot ? pdepth - 2 : pdepth * 6 / 10, preset = vs_randn(4) == 0;
    int runmax = big ? 2300 : hot ? 2 : MAX(2, MIN(8, pdepth / 10));
    tr("{\"pdepth\":%d,\"rdepth\":%d,\"cores\":%d,\"excl\":%s,\"reader\":%s,\"hot\":%s,\"cap\":%d,\"old\":%d}", pdepth, rdepth, cores,
       excl ? "true" : "false", reader ? "true" : "false", hot ? "true" : "false", RKMaximumPulsesPerRay, MAX(1, rdepth / 8));
    RKMomentEngineStart(engine);
    vs_observer = observer;
    pthread_t tid, tt;
    if (!hot) pthread_create(&tt, NULL, taggerThread, NULL);
    if (reader) pthread_create(&tid, NULL, readerThread, NULL);

    int az = vs_randn(2880), el = vs_randn(160), cfg = vs_randn(6), left = 0, begin = 0, run = 0, dir = vs_randn(2) ? 1 : -1, pidx = 0, speed = 1 + vs_randn(10), len = 0, bigrun = big;
    for (k = 0; k < N; k++) {
        if (left == 0) {
            left = len = hot ? 3 + vs_randn(12) : vs_randn(12) == 0 ? 1 + vs_randn(3) : 2 + vs_randn(big ? 4000 : 30);
            cfg = vs_randn(6);
            if (vs_randn(2)) { az = vs_randn(2880); el = vs_randn(160); }
            dir = vs_randn(2) ? 1 : -1;
            run = 0;
        }
        left--;
        uint32_t marker = types[cfg] | (left + 1 == len ? RKMarkerSweepBegin : 0) | (left == 0 ? RKMarkerSweepEnd : 0);
        if (!(marker & (RKMarkerSweepBegin | RKMarkerSweepEnd))) marker |= RKMarkerSweepMiddle;
        if (!hot && vs_randn(60) == 0) marker &= ~(RKMarkerSweepBegin | RKMarkerSweepEnd);
        // stay in a cell for a while, then move on
        if (run == 0) {
            run = 1 + vs_randn(bigrun ? runmax : MIN(runmax, 8));
            if (bigrun && vs_randn(2)) run = 2050 + vs_randn(200);
            speed = vs_randn(12) == 0 ? 8 + vs_randn(40) : 1 + vs_randn(8);
            az = ((az / 8 * 8 + dir * 8 + (int)vs_randn(vs_randn(20) == 0 ? 30 : 8)) % 2880 + 2880) % 2880;
            el = vs_randn(6) == 0 || (types[cfg] & RKMarkerScanTypeMask) != RKMarkerScanTypePPI ? (el + 8) % 160 : el;
            pidx = (pidx + 1 + vs_randn(3)) % 50;
        } else if ((types[cfg] & RKMarkerScanTypeMask) == RKMarkerScanTypeRHI) {
            az = (az + (vs_randn(9) == 0 ? 20 : 1)) % 2880;       // an RHI cell does not care about azimuth
        } else if (az % 8 < 7 && vs_randn(2)) az++;
        run--;
        if (hot && k > N - 40) { while (!settled()) usleep(500); }     // the stream becomes slow again
        // a well-behaved feeder never runs into slots that are still in use
        while (!(k - MAX(readyEnd, 0) < limit && k - MAX(readyEnd, 0) < rdepth - 3 && (!reader || (k - MAX(gotEnd, 0) < limit && k - MAX(gotEnd, 0) < rdepth - 3))) && !settled()) usleep(500 + vs_randn(500));
        RKPulse *p = P[k % pdepth];
        if (k >= pdepth && !(p->header.s & RKPulseStatusUsedForMoments)) tr("[\"N\",%d]", k - pdepth);
        p->header.s = RKPulseStatusVacant;
        p->header.i = k; p->header.timeDouble = k; p->header.time.tv_sec = k;
        p->header.azimuthDegrees = az / 8.0f; p->header.elevationDegrees = el / 8.0f;
        p->header.marker = marker; p->header.configIndex = cfg;
        p->header.gateCount = p->header.downSampledGateCount = 8 + vs_randn(16);
        p->header.gateSizeMeters = 30.0f;
        p->header.positionIndex = preset ? pidx : (uint32_t)-1;
        compressed[k % pdepth] = vs_randn(15) != 0;
        uint32_t m = configs[cfg].startMarker & RKMarkerScanTypeMask;
        int cell = preset ? pidx : m == RKMarkerScanTypePPI ? az / 8 : m == RKMarkerScanTypeRHI ? el / 8 : (el / 8) * 360 + az / 8;
        tr("[\"F\",%d,%d,%d,%d,%u,%d,%d,%d]", k, cell, az, el, marker, compressed[k % pdepth], cfg, p->header.downSampledGateCount);
        p->header.s = RKPulseStatusHasIQData;
        if (hot) p->header.s = RKPulseStatusReadyForMomentEngine | RKPulseStatusInspected | RKPulseStatusDownSampled | (compressed[k % pdepth] ? RKPulseStatusCompressed : RKPulseStatusSkipped);
        pulseIndex = (pulseIndex + 1) % pdepth;
        fedCount = k + 1;
        if (vs_randn(6) == 0) vs_yield();
        if (vs_randn(hot ? 400 : 20) == 0) usleep(vs_randn(3000));
    }
    double t0 = vs_now();
    while (vs_now() - t0 < 60.0 && !(settled() && vs_now() - t0 > 0.1)) usleep(5000);
    observer();
    for (k = MAX(0, N - pdepth); k < N && P[k % pdepth]->header.s & RKPulseStatusUsedForMoments; k++);
    tr("[\"E\",%d,%d,%d]", (int)engine->business, (int)engine->almostFull, k);
    quitAll = true;
    RKMomentEngineStop(engine);
    if (!hot) pthread_join(tt, NULL);
    if (reader) pthread_join(tid, NULL);
    vs_observer = NULL;
    tr("[\"end\",%d,%lu,%lu]", vs_alive(), vs_switches(), vs_blocks());
    tr_close();
    _exit(0);
}
