// C18: starts and stops each of the real engines at any moment under seeded schedules, while input comes.
// usage: life <seed> <out> <root> <engine>
#include <RadarKit.h>
#include "vsched.h"

enum {Pulse, Ring, Position, Moment, Sweep, Recorder, Logger, Health, Files, Steer, Kinds};
static int kind, D, cap = 64, cdepth = 10;
static RKRadar *radar;
static RKRadarDesc *desc;
static RKBuffer pulses, rays;
static RKConfig *configs;
static uint32_t configIndex = 0, pulseIndex = 0, rayIndex = 0;
static void *engine;
static char root[1000];
static RKEngineState state(void) {
    switch (kind) {
        case Pulse: return ((RKPulseEngine *)engine)->state;
        case Ring: return ((RKPulseRingFilterEngine *)engine)->state;
        case Position: return ((RKPositionEngine *)engine)->state;
        case Moment: return ((RKMomentEngine *)engine)->state;
        case Sweep: return ((RKSweepEngine *)engine)->state;
        case Recorder: return ((RKRawDataRecorder *)engine)->state;
        case Logger: return ((RKHealthLogger *)engine)->state;
        case Health: return ((RKHealthEngine *)engine)->state;
        case Files: return ((RKFileManager *)engine)->state;
        default: return ((RKSteerEngine *)engine)->state;
    }
}
static int start(void) {
    switch (kind) {
        case Pulse: return RKPulseEngineStart(engine);
        case Ring: return RKPulseRingFilterEngineStart(engine);
        case Position: return RKPositionEngineStart(engine);
        case Moment: return RKMomentEngineStart(engine);
        case Sweep: return RKSweepEngineStart(engine);
        case Recorder: return RKRawDataRecorderStart(engine);
        case Logger: return RKHealthLoggerStart(engine);
        case Health: return RKHealthEngineStart(engine);
        case Files: return RKFileManagerStart(engine);
        default: return RKSteerEngineStart(engine);
    }
}
static int stop(void) {
    switch (kind) {
        case Pulse: return RKPulseEngineStop(engine);
        case Ring: return RKPulseRingFilterEngineStop(engine);
        case Position: return RKPositionEngineStop(engine);
        case Moment: return RKMomentEngineStop(engine);
        case Sweep: return RKSweepEngineStop(engine);
        case Recorder: return RKRawDataRecorderStop(engine);
        case Logger: return RKHealthLoggerStop(engine);
        case Health: return RKHealthEngineStop(engine);
        case Files: return RKFileManagerStop(engine);
        default: return RKSteerEngineStop(engine);
    }
}

// ---- the file manager has no reason to remove anything here; should it try, nothing happens
static int removals = 0;
int __wrap_remove(const char *x) { removals++; return -1; }
int __wrap_unlink(const char *x) { removals++; return -1; }
int __wrap_rmdir(const char *x) { removals++; return -1; }
int __wrap_system(const char *x) { removals++; return -1; }
FILE *__wrap_popen(const char *x, const char *y) { removals++; return NULL; }

// ---- what is shared
static struct { void *p; size_t n; } shared[16];
static int nshared = 0;
static void share(void *p, size_t n) { shared[nshared].p = p; shared[nshared++].n = n; }
static uint64_t signature(void) {
    uint64_t h = 14695981039346656037ull;
    for (int k = 0; k < nshared; k++) for (size_t j = 0; j < shared[k].n; j++) h = (h ^ ((uint8_t *)shared[k].p)[j]) * 1099511628211ull;
    return h;
}

static int noise(RKMomentScratch *s, RKPulse **p, const uint16_t n) { s->noise[0] = s->noise[1] = 1.0f; return RKResultSuccess; }
static void calibrator(RKUserModule m, RKMomentScratch *s) {}
static int processor(RKMomentScratch *s, RKPulse **p, const uint16_t n) {
    int k = (int)vs_randn(4);
    while (k--) vs_yield();
    if (vs_randn(8) == 0) vs_advance(1e-6 * vs_randn(3000));
    return n;
}
static void compressor(RKUserModule m, RKCompressionScratch *s) {
    int k = (int)vs_randn(4);
    while (k--) vs_yield();
    if (vs_randn(8) == 0) vs_advance(1e-6 * vs_randn(400));
}
static int productRays = 0;
static int productRecorder(RKProduct *p, const char *filename) {
    if (!strcmp(p->desc.symbol, "Z")) productRays += p->header.rayCount;
    if (vs_randn(3) == 0) usleep(vs_randn(60000));
    return RKResultSuccess;
}

static void setup(void) {
    int k;
    size_t n;
    radar = calloc(1, sizeof(RKRadar));
    desc = &radar->desc;
    radar->healthNodes = calloc(RKHealthNodeCount, sizeof(RKNodalHealth));
    desc->pulseBufferDepth = desc->rayBufferDepth = desc->positionBufferDepth = desc->healthBufferDepth = D;
    if (kind == Steer) desc->pulseBufferDepth = D + vs_randn(20) - 10;
    desc->configBufferDepth = cdepth; desc->pulseCapacity = cap; desc->pulseToRayRatio = 1; desc->initFlags = RKInitFlagNone; desc->wavelength = 0.03f;
    desc->healthNodeCount = RKHealthNodeCount;
    strcpy(desc->dataPath, root); strcpy(desc->filePrefix, "XX"); strcpy(desc->name, "radar");
    radar->state = RKRadarStateLive;
    RKConfigBufferAlloc(&configs, cdepth);
    RKWaveform *w = RKWaveformInitWithCountAndDepth(1, 4);
    for (k = 0; k < cdepth; k++) {
        configs[k].i = 2000 + k; configs[k].prt[0] = 1e-3f; configs[k].SNRThreshold = -100.0f; configs[k].SQIThreshold = -1.0f; configs[k].ringFilterGateCount = cap;
        configs[k].startMarker = RKMarkerScanTypePPI; configs[k].waveform = w; configs[k].noise[0] = configs[k].noise[1] = 1.0f; configs[k].pulseGateCount = 24;
    }
    if (kind <= Moment || kind == Recorder) { n = RKPulseBufferAlloc(&pulses, cap, D); share(pulses, n); }
    if (kind == Moment || kind == Sweep) { n = RKRayBufferAlloc(&rays, cap, D); share(rays, n); }
    share(configs, cdepth * sizeof(RKConfig)); share(&configIndex, 4); share(&rayIndex, 4); share(&pulseIndex, 4);
    bool verbose = vs_randn(2);
    switch (kind) {
        case Pulse: {
            RKPulseEngine *e = engine = RKPulseEngineInit();
            RKPulseEngineSetEssentials(e, desc, RKFFTModuleInit(cap, 0), configs, &configIndex, pulses, &pulseIndex);
            RKPulseEngineSetCoreCount(e, 1 + vs_randn(4));
            if (vs_randn(2)) RKPulseEngineSetCompressor(e, compressor, NULL);
            if (verbose) RKPulseEngineSetVerbose(e, 3);
            break;
        }
        case Ring: {
            RKPulseRingFilterEngine *e = engine = RKPulseRingFilterEngineInit();
            RKPulseRingFilterEngineSetEssentials(e, desc, configs, &configIndex, pulses, &pulseIndex);
            RKPulseRingFilterEngineSetCoreCount(e, 1 + vs_randn(4));
            if (vs_randn(2)) RKPulseRingFilterEngineEnableFilter(e);
            if (verbose) RKPulseRingFilterEngineSetVerbose(e, 3);
            break;
        }
        case Position: {
            RKPositionEngine *e = engine = RKPositionEngineInit();
            radar->positions = calloc(D, sizeof(RKPosition));
            share(radar->positions, D * sizeof(RKPosition));
            RKPositionEngineSetEssentials(e, desc, radar->positions, &radar->positionIndex, configs, &configIndex, pulses, &pulseIndex);
            if (verbose) RKPositionEngineSetVerbose(e, 3);
            break;
        }
        case Moment: {
            RKMomentEngine *e = engine = RKMomentEngineInit();
            RKMomentEngineSetEssentials(e, desc, RKFFTModuleInit(16, 0), configs, &configIndex, pulses, &pulseIndex, rays, &rayIndex);
            RKMomentEngineSetCoreCount(e, 1 + vs_randn(4));
            RKMomentEngineSetNoiseEstimator(e, noise);
            RKMomentEngineSetMomentProcessor(e, processor);
            RKMomentEngineSetCalibrator(e, calibrator, NULL);
            if (verbose) RKMomentEngineSetVerbose(e, 3);
            break;
        }
        case Sweep: {
            RKSweepEngine *e = engine = RKSweepEngineInit();
            e->baseProductList = RKBaseProductListFloatZVWDPR;
            RKSweepEngineSetProductRecorder(e, productRecorder);
            RKSweepEngineSetEssentials(e, desc, NULL, configs, &configIndex, rays, &rayIndex);
            RKSweepEngineSetRecord(e, true);
            if (verbose) RKSweepEngineSetVerbose(e, 3);
            break;
        }
        case Recorder: {
            RKRawDataRecorder *e = engine = RKRawDataRecorderInit();
            RKRawDataRecorderSetEssentials(e, desc, NULL, configs, &configIndex, pulses, &pulseIndex);
            RKRawDataRecorderSetRecord(e, true);
            RKRawDataRecorderSetMaximumRecordDepth(e, 5 + vs_randn(50));
            RKRawDataRecorderSetRawDataType(e, RKRawDataTypeFromTransceiver);
            if (verbose) RKRawDataRecorderSetVerbose(e, 3);
            break;
        }
        case Logger: {
            RKHealthLogger *e = engine = RKHealthLoggerInit();
            radar->healths = calloc(D, sizeof(RKHealth));
            share(radar->healths, D * sizeof(RKHealth)); share(&radar->healthIndex, 4);
            RKHealthLoggerSetEssentials(e, desc, NULL, radar->healths, &radar->healthIndex);
            RKHealthLoggerSetRecord(e, vs_randn(2));
            if (verbose) RKHealthLoggerSetVerbose(e, 3);
            break;
        }
        case Health: {
            RKHealthEngine *e = engine = RKHealthEngineInit();
            radar->healths = calloc(D, sizeof(RKHealth));
            share(radar->healths, D * sizeof(RKHealth)); share(&radar->healthIndex, 4);
            for (k = 0; k < RKHealthNodeCount; k++) { radar->healthNodes[k].healths = calloc(D, sizeof(RKHealth)); if (k < 3) share(radar->healthNodes[k].healths, D * sizeof(RKHealth)); }
            radar->healthEngine = e;
            RKHealthEngineSetEssentials(e, desc, radar->healthNodes, radar->healths, &radar->healthIndex);
            if (verbose) RKHealthEngineSetVerbose(e, 3);
            break;
        }
        case Files: {
            RKFileManager *e = engine = RKFileManagerInit();
            RKFileManagerSetPathToMonitor(e, root);
            RKFileManagerSetDiskUsageLimit(e, (size_t)1 << 40);
            if (verbose) RKFileManagerSetVerbose(e, 3);
            break;
        }
        default: {
            RKSteerEngine *e = engine = RKSteerEngineInit();
            radar->positions = calloc(D, sizeof(RKPosition));
            share(radar->positions, D * sizeof(RKPosition)); share(&radar->positionIndex, 4);
            RKSteerEngineSetEssentials(e, desc, radar->positions, &radar->positionIndex, configs, &configIndex);
            if (verbose) RKSteerEngineSetVerbose(e, 1);
        }
    }
}

static long fed, done;
static int npos, perSweep, files, lastSize, breakAt;      // a source may break down in the middle of something, -1 never
static bool broken = false;
static void reset(void) {                 // as a soft restart does
    int k, n;
    fed = done = 0; npos = 0; productRays = 0; broken = false; breakAt = -1;
    pulseIndex = rayIndex = radar->positionIndex = radar->healthIndex = 0;
    if (pulses) RKClearPulseBuffer(pulses, D);
    if (rays) RKClearRayBuffer(rays, D);
    if (radar->positions) { memset(radar->positions, 0, D * sizeof(RKPosition)); for (k = 0; k < D; k++) radar->positions[k].i = -(uint64_t)D + k; }
    if (radar->healths) { memset(radar->healths, 0, D * sizeof(RKHealth)); for (k = 0; k < D; k++) radar->healths[k].i = -(uint64_t)D + k; }
    for (n = 0; n < RKHealthNodeCount; n++) if (radar->healthNodes[n].healths) {
        radar->healthNodes[n].index = 0;
        memset(radar->healthNodes[n].healths, 0, D * sizeof(RKHealth));
        for (k = 0; k < D; k++) radar->healthNodes[n].healths[k].i = -(uint64_t)D + k;
    }
    perSweep = 5 + vs_randn(D / 5 - 3);
}

// how much of what was given has been dealt with
static long progress(void) {
    uint32_t bit;
    switch (kind) {
        case Pulse: bit = RKPulseStatusProcessed; break;
        case Ring: bit = RKPulseStatusRingProcessed; break;
        case Position: bit = RKPulseStatusHasPosition; break;
        case Moment: bit = RKPulseStatusUsedForMoments; break;
        case Recorder: return ((RKRawDataRecorder *)engine)->tic - 1;
        case Sweep: return ((RKSweepEngine *)engine)->tic > 1 ? MIN(fed, productRays) : 0;
        case Logger: return ((RKHealthLogger *)engine)->tic - 1;
        case Files: { RKFileManager *e = engine; return e->workers && e->workers[0].usage >= lastSize ? fed : 0; }
        case Health: case Steer: default: return fed;
    }
    while (done < fed && (RKGetPulseFromBuffer(pulses, done % D)->header.s & bit)) done++;
    return done;
}
static bool room(void) {
    if (broken) return false;
    if (kind == Sweep) return fed < 2 * perSweep;
    if (kind == Health || kind == Steer || kind == Files) return true;
    if (kind == Moment) return fed - progress() < D / 2 && fed - progress() < 20;
    return fed - progress() < (kind == Recorder ? D / 4 : D / 2);
}
static void feed(void) {
    int k = fed % D, j;
    if (breakAt >= 0 && breakAt-- == 0) broken = true;
    if (kind <= Moment || kind == Recorder) {
        RKPulse *p = RKGetPulseFromBuffer(pulses, k);
        if (kind == Position && !broken) while (npos < fed + 3) {
            RKPosition *q = &radar->positions[npos % D];
            q->i += D; q->tic = npos * 10; q->timeDouble = npos * 10;
            q->azimuthDegrees = npos % 360; q->elevationDegrees = 3.0f;
            q->flag = RKPositionFlagElevationPoint | RKPositionFlagAzimuthSweep | RKPositionFlagAzimuthEnabled | RKPositionFlagElevationEnabled | RKPositionFlagScanActive | RKPositionFlagVCPActive;
            q->flag |= RKPositionFlagReady;
            radar->positions[(npos + 1 + D / 8) % D].flag = RKPositionFlagVacant;
            npos++;
            radar->positionIndex = npos % D;
        }
        p->header.s = RKPulseStatusVacant;
        p->header.i = fed; p->header.timeDouble = kind == Position ? fed * 10 + 5 : fed; p->header.time.tv_sec = 1600000000 + fed; p->header.configIndex = 0;
        if (kind == Recorder) p->header.timeDouble = 1600000000 + fed;
        p->header.gateCount = kind == Ring ? cap : 24; p->header.downSampledGateCount = kind == Ring ? cap : 24; p->header.gateSizeMeters = 30.0f;
        p->header.azimuthDegrees = (fed / 3) % 360; p->header.elevationDegrees = 3.0f; p->header.marker = RKMarkerScanTypePPI | RKMarkerSweepMiddle; p->header.positionIndex = (uint32_t)-1;
        switch (kind) {
            case Pulse: p->header.s = RKPulseStatusHasIQData; break;
            case Ring: p->header.s = RKPulseStatusHasIQData | RKPulseStatusInspected | RKPulseStatusCompressed | RKPulseStatusDownSampled | RKPulseStatusProcessed; break;
            case Position: p->header.s = RKPulseStatusHasIQData | RKPulseStatusProcessed | RKPulseStatusRingInspected | RKPulseStatusRingProcessed; break;
            case Moment: p->header.s = RKPulseStatusReadyForMomentEngine | RKPulseStatusInspected | RKPulseStatusDownSampled | RKPulseStatusCompressed; break;
            default: p->header.s = RKPulseStatusHasIQData | RKPulseStatusHasPosition | RKPulseStatusProcessed | RKPulseStatusRingProcessed | RKPulseStatusUsedForMoments;
        }
        if (broken) p->header.s &= vs_randn(2) ? RKPulseStatusHasIQData : ~RKPulseStatusReadyForMomentEngine;
        pulseIndex = (k + 1) % D;
    } else if (kind == Sweep) {
        RKRay *r = RKGetRayFromBuffer(rays, k);
        int m = fed % perSweep;
        r->header.s = RKRayStatusProcessing;
        r->header.i = fed; r->header.marker = m == 0 ? RKMarkerSweepBegin : m == perSweep - 1 ? RKMarkerSweepEnd | RKMarkerSweepMiddle : RKMarkerSweepMiddle;
        r->header.configIndex = 0; r->header.gateCount = 20; r->header.gateSizeMeters = 30.0f; r->header.baseProductList = RKBaseProductListFloatZVWDPR;
        r->header.startTime.tv_sec = r->header.endTime.tv_sec = 1600000000 + fed;
        r->header.startAzimuth = m; r->header.endAzimuth = m + 1; r->header.startElevation = r->header.endElevation = 3.0f;
        if (!broken) r->header.s = RKRayStatusReady;
        rayIndex = (k + 1) % D;
    } else if (kind == Logger) {
        RKHealth *h = &radar->healths[k];
        h->i += D;
        sprintf(h->string, "{\"a\":{\"Value\":%ld,\"Enum\":0}, \"Log Time\":%ld}", fed, 1600000000 + fed * 7);
        if (!broken) h->flag = RKHealthFlagReady;
        radar->healths[(k + 1) % D].flag = RKHealthFlagVacant;
        radar->healthIndex = (k + 1) % D;
    } else if (kind == Health) {
        for (j = 0; j < 3; j++) if (j == 0 || vs_randn(2)) {
            RKHealth *h = RKGetVacantHealth(radar, j);
            if (vs_randn(3) == 0) usleep(vs_randn(50000));
            sprintf(h->string, "{\"fed%d\":{\"Value\":%ld,\"Enum\":0}}", j, fed);
            if (!broken) RKSetHealthReady(radar, h);
        }
    } else if (kind == Files) {
        char s[1500];
        RKFileManager *e = engine;
        snprintf(s, sizeof(s), "%s/iq/20200913/XX-20200913-%02d%02d%02d.rkr", root, (files / 3600) % 24, (files / 60) % 60, files % 60);
        files++;
        RKPreparePath(s);
        FILE *f = fopen(s, "w"); fputc('x', f); fclose(f);
        if (RKFileManagerAddFile(e, s, RKFileTypeIQ) != RKResultSuccess && (state() & RKEngineStateActive) && (state() & RKEngineStateWantActive)) tr("[\"refused\"]");
        lastSize++;
    } else {
        RKPosition *p = &radar->positions[k];
        p->i += D; p->tic = fed; p->timeDouble = fed * 0.1; p->azimuthDegrees = fed % 360; p->flag = RKPositionFlagReady;
        RKSteerEngineGetAction(engine, p);
        radar->positionIndex = (k + 1) % D;
    }
    fed++;
}
// given time, all of it is
static bool settle(void) {
    int k, j;
    for (k = 0; k < 20000; k++) {
        switch (kind) {
            case Moment: if (progress() >= fed - 7 && rayIndex + 3 >= ((int)fed / 3 % D)) return true; break;
            case Position: if (progress() >= fed) return true; break;
            case Health: {
                RKHealthEngine *e = engine;
                long best = -1, v;
                for (j = 0; j < D; j++) { char *c = strstr(radar->healths[j].string, "\"fed0\":{\"Value\":"); if (radar->healths[j].flag & RKHealthFlagReady && c) { v = atol(c + 16); if (v > best) best = v; } }
                if (e->tic >= 3 && best >= fed - 8 && best >= 0) return true;
                if (k % 40 == 0 && k < 8000) feed();
                break;
            }
            case Sweep: if (productRays == fed) { for (j = 0; j < fed; j++) if (RKGetRayFromBuffer(rays, j)->header.s == RKRayStatusVacant) return false; return true; } break;
            case Steer: { RKSteerEngine *e = engine; if ((state() & RKEngineStateActive) && e->vcpHandle.toc == (int)ceilf(RKPedestalActionPeriod * 10.0f)) return true; if (k % 10 == 0 && k < 8000) feed(); break; }
            default: if (progress() >= fed) return true;
        }
        usleep(10000);
    }
    return false;
}

static bool feeding = false, idle = true, quitAll = false;
static int pace;
static long target;
static void *feeder(void *x) {
    while (!quitAll) {
        idle = false;
        if (!feeding || fed >= target || !room()) { idle = true; usleep(500 + vs_randn(2000)); continue; }
        feed();
        if (vs_randn(4) >= pace) usleep(vs_randn(pace == 0 ? 300000 : 3000));
        if (kind == Health) usleep(vs_randn(300000));
    }
    return NULL;
}
static void hush(void) { feeding = false; do usleep(1000); while (!idle); }
static void ended(const char *why) { tr("[\"%s\"]", why); }
static int others(void) { return vs_alive() - 2; }
static void again(void) {
    RKEngineState s = state();
    int r = stop();
    tr("[\"x\",%d,%d,%d]", r == RKResultEngineDeactivatedMultipleTimes, state() == s, others());
}

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    vs_conf c;
    int k, r;
    vs_conf_from_seed(&c, seed);
    vs_giveup = ended;
    setenv("TZ", "XST6", 1); tzset();
    tr_open(argv[2]);
    RKSetWantScreenOutput(false);
    strcpy(root, argv[3]);
    RKSetRootDataFolder(root);
    kind = atoi(argv[4]);
    vs_start(&c);
    D = 40 + vs_randn(30);
    setup();
    tr("{\"engine\":%d,\"limit\":10000}", kind);
    pthread_t tid;
    pthread_create(&tid, NULL, feeder, NULL);
    int rounds = 2 + vs_randn(3);
    if (vs_randn(3) == 0) again();
    for (k = 0; k < rounds; k++) {
        reset();
        bool full = vs_randn(2);
        pace = vs_randn(4);
        target = full ? (kind == Sweep ? 2 * perSweep : kind == Steer ? 9 + 10 * vs_randn(8) : 10 + vs_randn(3 * D)) : 1 << 30;
        if (!full && vs_randn(2)) breakAt = vs_randn(40);
        bool silent = !full && vs_randn(6) == 0;  // there may be nothing at all
        bool before = vs_randn(4) == 0;           // some of it is there before the start
        if (kind == Files) { before = false; if (target < 1 << 30) target = 5 + vs_randn(30); }
        if (before && !silent && kind != Health) { int n = vs_randn(D / 8); while (n-- > 0 && fed < target && room()) feed(); }
        tr("[\"s\"]");
        r = start();
        RKEngineState s = state();
        RKEngineState want = RKEngineStateAllocated | RKEngineStateProperlyWired | RKEngineStateActive | RKEngineStateWantActive;
        if (kind == Position || kind == Steer) { want &= ~RKEngineStateActive; s &= ~RKEngineStateActive; }       // these become active with the first positions
        tr("[\"S\",%d,%d,%d]", r, (s & want) == want && !(s & (RKEngineStateActivating | RKEngineStateDeactivating)), others());
        feeding = !silent;
        if (full) {
            while (fed < target) usleep(2000);
            hush();
            bool ok = settle();
            want |= RKEngineStateActive;
            tr("[\"F\",%ld]", fed);
            tr("[\"W\",%ld,%d]", ok ? fed : progress(), (state() & want) == want && !(state() & (RKEngineStateActivating | RKEngineStateDeactivating)));
        } else {
            switch (vs_randn(4)) {
                case 0: break;
                case 1: usleep(vs_randn(1000)); break;
                case 2: usleep(vs_randn(100000)); break;
                default: usleep(vs_randn(3000000));
            }
        }
        if (vs_randn(2)) hush();
        tr("[\"p\"]");
        double t0 = vs_now();
        r = stop();
        tr("[\"P\",%d,%d,%d,%d]", r, state() == (RKEngineStateAllocated | RKEngineStateProperlyWired), others(), (int)((vs_now() - t0) * 1000.0));
        hush();
        if (vs_randn(3) == 0) again();
        // it keeps its hands off
        int n = vs_randn(4);
        while (n-- > 0 && kind != Files && room()) feed();
        uint64_t h = signature();
        usleep(200000 + vs_randn(2000000));
        tr("[\"Q\",%d]", h != signature());
    }
    quitAll = true;
    pthread_join(tid, NULL);
    if (removals) tr("[\"removals\",%d]", removals);
    tr("[\"end\",%d,%lu,%lu]", vs_alive(), vs_switches(), vs_blocks());
    tr_close();
    _exit(0);
}
