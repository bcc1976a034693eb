// C03: drives the real position engine and the position slots of the radar under seeded schedules.
// usage: position <seed> <out> <root>
#include <RadarKit.h>
#include "vsched.h"

static RKRadar *radar;
static RKPositionEngine *engine;
static RKBuffer pulses;
static RKConfig *configs;
static uint32_t configIndex = 0, pulseIndex = 0;
static int pdepth, qdepth, cdepth, other;
static RKPulse *P[512];
static uint32_t lastS[512], lastC;
static int ntag = 0, nring = 0, fed = 0, npos = 0, wild;
static bool quitAll = false;
typedef struct { int t, az, el, flag, saz, sel, vaz, vel; } pos_t;
typedef struct { int t, gates, size; } pul_t;
static pos_t Q[4096];
static pul_t U[4096];
static int nQ, nU, before[4096];

double __wrap_RKClockGetTime(RKClock *clock, const double u, struct timeval *tv) { return u; }

static int i128(float x) { float y = x * 128.0f; return y == rintf(y) ? (int)y : -999999; }
static int i8(float x) { float y = x * 8.0f; return y == rintf(y) ? (int)y : -999999; }

static void observer(void) {
    int k;
    while (configIndex != lastC) {
        RKConfig *c = &configs[lastC];
        tr("[\"C\",%d,%d,%d,%d,%d,%d,%u,%d]", (int)lastC, (int)c->i, i8(c->sweepAzimuth), i8(c->sweepElevation), (int)c->pulseGateCount,
           (int)c->pulseGateSize, c->startMarker, (int)c->SNRThreshold);
        lastC = (lastC + 1) % cdepth;
    }
    for (k = 0; k < pdepth; k++) {
        RKPulse *p = P[k];
        uint32_t s = p->header.s, o = lastS[k];
        if (s == o) continue;
        lastS[k] = s;
        if ((s & RKPulseStatusHasPosition) && !(o & RKPulseStatusHasPosition)) {
            tr("[\"T\",%d,%d,%d,%u,%d,%d,%d,%d,%d]", (int)p->header.i, i128(p->header.azimuthDegrees), i128(p->header.elevationDegrees), p->header.marker,
               p->header.configIndex, i8(p->header.azimuthVelocityDegreesPerSecond), i8(p->header.elevationVelocityDegreesPerSecond),
               (int)p->header.rawAzimuth.u32, (int)p->header.rawElevation.u32);
            ntag = (int)p->header.i + 1;
        }
    }
}

// positions: sweeps of some kind, or anything at all when wild
static void plan(void) {
    int k, n = 150 + vs_randn(150), t = 0, left = 0, dir = 1, rate = 4, ty = 0, az = vs_randn(2880), el = vs_randn(160), saz = 0, sel = 0, idle = 0, d;
    static const int types[] = {RKPositionFlagElevationPoint | RKPositionFlagAzimuthSweep, RKPositionFlagAzimuthPoint | RKPositionFlagElevationSweep,
                                RKPositionFlagAzimuthPoint | RKPositionFlagElevationPoint, 0};
    int bursty = vs_randn(3), longest = 2 + vs_randn(vs_randn(2) ? 6 : 40);
    for (k = 0; k < n; k++) {
        int flag = 0;
        if (left == 0) {
            left = 1 + vs_randn(longest);
            ty = types[vs_randn(wild ? 4 : 3)];
            idle = vs_randn(4) == 0;
            saz = vs_randn(2880); sel = vs_randn(160);
            dir = vs_randn(2) ? 1 : -1; rate = vs_randn(30);
            if (vs_randn(3) == 0) az = vs_randn(2) ? 2870 + vs_randn(10) : vs_randn(10);
        }
        left--;
        flag = ty | RKPositionFlagAzimuthEnabled | RKPositionFlagElevationEnabled;
        if (!idle) flag |= RKPositionFlagScanActive | RKPositionFlagVCPActive;
        if (left == 0 && !idle) flag |= ty & RKPositionFlagAzimuthSweep ? RKPositionFlagAzimuthComplete : RKPositionFlagElevationComplete;
        if (wild) {
            if (vs_randn(5) == 0) flag ^= RKPositionFlagScanActive;
            if (vs_randn(5) == 0) flag ^= RKPositionFlagAzimuthComplete;
            if (vs_randn(5) == 0) flag ^= RKPositionFlagElevationComplete;
            if (vs_randn(5) == 0) flag ^= 1 << (8 + vs_randn(2));
            if (vs_randn(5) == 0) flag ^= 1 << (24 + vs_randn(2));
        }
        if (vs_randn(40) == 0) { az = vs_randn(2880); el = vs_randn(1400); }
        if (ty & RKPositionFlagElevationSweep) el += dir * rate / 2; else az += dir * rate;
        az = ((az % 2880) + 2880) % 2880;
        if (el < -80) el = -80; if (el > 1520) el = 1520;
        t += 4 << vs_randn(3);
        Q[k] = (pos_t){t, az, el, flag, saz, sel, (int)vs_randn(200) - 100, (int)vs_randn(200) - 100};
    }
    nQ = n;
    // pulses, no more than a third of the position ring apart
    int j = 0, mean = bursty == 0 ? 2 : bursty == 1 ? 8 : 30, gates = 10, size = 30;
    t = Q[0].t + vs_randn(20);
    for (k = 0; k < 1200; k++) {
        while (j < n && Q[j].t <= t) j++;
        if (j >= n - 1) break;
        if (vs_randn(40) == 0 && k > 0) { gates = 5 + vs_randn(10); }
        if (vs_randn(60) == 0) size = 15 * (1 + vs_randn(4));
        before[k] = j - 1;
        U[k] = (pul_t){t, gates, size};
        d = 1 + vs_randn(mean);
        if (vs_randn(12) == 0) d += vs_randn(100);
        if (vs_randn(12) == 0 && j > 0) { d = Q[j].t - t; }        // exactly at the time of a report
        if (d <= 0) d = 1;
        while (d > 1) { int m = 0; while (j + m < n && Q[j + m].t <= t + d) m++; if (m <= qdepth / 3) break; d /= 2; }
        t += d;
    }
    nU = k;
}

static void *positionThread(void *x) {
    int k;
    for (k = 0; k < nQ; k++) {
        // the antenna does not run a whole ring ahead of the pulses
        while (k > 2 && ntag < nU && k - (ntag > 0 ? before[ntag - 1] : 0) > qdepth * 3 / 4 - 2) { if (quitAll) return NULL; usleep(500); }
        RKPosition *p = RKGetVacantPosition(radar);
        pos_t *q = &Q[k];
        p->tic = q->t;
        p->azimuthDegrees = q->az / 8.0f; p->elevationDegrees = q->el / 8.0f;
        p->sweepAzimuthDegrees = q->saz / 8.0f; p->sweepElevationDegrees = q->sel / 8.0f;
        p->azimuthVelocityDegreesPerSecond = q->vaz / 8.0f; p->elevationVelocityDegreesPerSecond = q->vel / 8.0f;
        p->rawAzimuth.u32 = k; p->rawElevation.u32 = 100000 + k;
        p->flag = q->flag;
        tr("[\"P\",%d,%d,%d,%d,[%d,%d,%d,%d,%d,%d,%d],%d,%d,%d,%d]", k, q->t, q->az, q->el, q->flag >> 8 & 1, q->flag >> 9 & 1, q->flag >> 10 & 1,
           q->flag >> 24 & 1, q->flag >> 25 & 1, q->flag >> 26 & 1, q->flag >> 28 & 1, q->saz, q->sel, q->vaz, q->vel);
        RKSetPositionReady(radar, p);
        npos = k + 1;
        if (vs_randn(4) == 0) usleep(vs_randn(4000));
    }
    return NULL;
}

// the filter ahead of the tagger: pulses become ready a little out of step
static void *ringThread(void *x) {
    while (!quitAll) {
        if (nring == fed) { usleep(100 + vs_randn(500)); continue; }
        P[nring % pdepth]->header.s |= RKPulseStatusRingInspected | RKPulseStatusRingProcessed;
        nring++;
        if (vs_randn(12) == 0) usleep(vs_randn(3000));
    }
    return NULL;
}

static void *operatorThread(void *x) {
    int n = 100, last = -1;
    while (!quitAll) {
        usleep(1000 + vs_randn(20000));
        if (last == ntag) continue;       // not faster than the configuration ring turns
        last = ntag;
        n++;
        RKConfigAdvanceEllipsis(configs, &configIndex, cdepth, RKConfigKeySNRThreshold, (double)n, RKConfigKeyNull);
    }
    return NULL;
}

static void ended(const char *why) { tr("[\"%s\"]", why); }

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    vs_conf c;
    int k;
    vs_conf_from_seed(&c, seed);
    vs_giveup = ended;
    tr_open(argv[2]);
    RKSetWantScreenOutput(false);
    RKSetRootDataFolder(argv[3]);
    vs_start(&c);
    static const int pd[] = {40, 53, 64, 97}, qd[] = {24, 30, 40};
    pdepth = pd[vs_randn(4)]; qdepth = qd[vs_randn(3)]; cdepth = 8 + vs_randn(6); other = vs_randn(3) == 0; wild = vs_randn(3) == 0;
    plan();
    radar = calloc(1, sizeof(RKRadar));
    radar->desc.pulseBufferDepth = pdepth; radar->desc.positionBufferDepth = qdepth; radar->desc.configBufferDepth = cdepth;
    radar->positions = calloc(qdepth, sizeof(RKPosition));
    radar->state = RKRadarStateLive;
    for (k = 0; k < qdepth; k++) radar->positions[k].i = k - qdepth;
    RKConfigBufferAlloc(&configs, cdepth);
    RKWaveform *wav = RKWaveformInitWithCountAndDepth(1, 4);
    for (k = 0; k < cdepth; k++) configs[k].i = k - cdepth;
    configs[cdepth - 1].waveform = wav;
    RKConfigAdvanceEllipsis(configs, &configIndex, cdepth, RKConfigKeyPositionMarker, RKMarkerNull, RKConfigKeyNull);
    configs[0].SNRThreshold = 100.0f;
    lastC = configIndex;
    RKPulseBufferAlloc(&pulses, 64, pdepth);
    for (k = 0; k < pdepth; k++) P[k] = RKGetPulseFromBuffer(pulses, k);
    P[0]->header.gateCount = U[0].gates;
    engine = RKPositionEngineInit();
    radar->positionEngine = engine;
    RKPositionEngineSetEssentials(engine, &radar->desc, radar->positions, &radar->positionIndex, configs, &configIndex, pulses, &pulseIndex);
    if (vs_randn(2)) RKPositionEngineSetVerbose(engine, 3);
    tr("{\"pdepth\":%d,\"qdepth\":%d,\"cdepth\":%d,\"wild\":%s,\"other\":%s,\"gates\":%d}", pdepth, qdepth, cdepth, wild ? "true" : "false", other ? "true" : "false", U[0].gates);
    vs_observer = observer;
    pthread_t a, b, o;
    RKPositionEngineStart(engine);
    pthread_create(&a, NULL, positionThread, NULL);
    pthread_create(&b, NULL, ringThread, NULL);
    if (other) pthread_create(&o, NULL, operatorThread, NULL);
    while (npos < 2) usleep(1000);
    for (k = 0; k < nU; k++) {
        while (k - ntag > pdepth * 3 / 4) usleep(500);
        RKPulse *p = P[k % pdepth];
        p->header.s = RKPulseStatusVacant;
        p->header.i = k; p->header.timeDouble = U[k].t;
        p->header.marker = 0xffff; p->header.configIndex = 9999; p->header.azimuthDegrees = p->header.elevationDegrees = -777.3f;
        p->header.gateCount = U[k].gates; p->header.gateSizeMeters = U[k].size;
        tr("[\"F\",%d,%d,%d,%d]", k, U[k].t, U[k].gates, U[k].size);
        p->header.s = RKPulseStatusHasIQData;
        pulseIndex = (pulseIndex + 1) % pdepth;
        fed = k + 1;
        if (vs_randn(6) == 0) vs_yield();
        if (vs_randn(15) == 0) usleep(vs_randn(6000));
    }
    double t0 = vs_now(); int t1 = ntag;
    while (vs_now() - t0 < 0.5 || nring < fed || npos < nQ) { usleep(5000); if (t1 != ntag || nring < fed) { t1 = ntag; t0 = vs_now(); } if (vs_now() > 600.0) break; }
    observer();
    tr("[\"E\",%d]", npos);
    quitAll = true;
    RKPositionEngineStop(engine);
    pthread_join(a, NULL); pthread_join(b, NULL); if (other) pthread_join(o, NULL);
    vs_observer = NULL;
    tr("[\"end\",%d,%lu,%lu]", vs_alive(), vs_switches(), vs_blocks());
    tr_close();
    _exit(0);
}
