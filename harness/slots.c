// C19: the rings of a real radar. usage: slots <seed> <out> <root>
#include <RadarKit.h>
#include "plain.h"
RKStatus *RKGetVacantStatus(RKRadar *);
void RKSetStatusReady(RKRadar *, RKStatus *);

enum {PULSE, RAY, POSITION, STAT, NODE, NR = NODE + 4};
static const char *names[] = {"pulse", "ray", "position", "status", "h0", "h1", "h2", "h3"};
static RKRadar *radar;
static int depth[NR], count[NR], nodes = 4;
static int64_t *ids[NR]; static int *sts[NR]; static uint64_t *sums[NR];
static char buf[200000];

static uint8_t *slot(int x, int k) {
    switch (x) {
        case PULSE: return (uint8_t *)RKGetPulseFromBuffer(radar->pulses, k);
        case RAY: return (uint8_t *)RKGetRayFromBuffer(radar->rays, k);
        case POSITION: return (uint8_t *)&radar->positions[k];
        case STAT: return (uint8_t *)&radar->status[k];
        default: return (uint8_t *)&radar->healthNodes[x - NODE].healths[k];
    }
}
static RKIdentifier *idOf(int x, int k) {
    uint8_t *p = slot(x, k);
    return x == PULSE ? &((RKPulse *)p)->header.i : x == RAY ? &((RKRay *)p)->header.i : x == POSITION ? &((RKPosition *)p)->i : x == STAT ? &((RKStatus *)p)->i : &((RKHealth *)p)->i;
}
static void *rawOf(int x, int k) {
    uint8_t *p = slot(x, k);
    return x == PULSE ? (void *)&((RKPulse *)p)->header.s : x == RAY ? (void *)&((RKRay *)p)->header.s : x == POSITION ? (void *)&((RKPosition *)p)->flag : x == STAT ? (void *)&((RKStatus *)p)->flag : (void *)&((RKHealth *)p)->flag;
}
static uint32_t doneBit(int x) { return x == PULSE ? RKPulseStatusCompressed : x == RAY ? RKRayStatusReady : x == POSITION ? (uint32_t)RKPositionFlagReady : x == STAT ? RKStatusFlagReady : RKHealthFlagReady; }
static int rawSize(int x) { return x == RAY ? sizeof(((RKRay *)0)->header.s) : 4; }
static uint32_t raw(int x, int k) { uint32_t v = 0; memcpy(&v, rawOf(x, k), rawSize(x)); return v; }
static int st(int x, int k) { uint32_t v = raw(x, k); return v == 0 ? 0 : v & doneBit(x) ? 2 : 1; }
static size_t stride(int x) {
    switch (x) {
        case PULSE: return RKPulseHeaderPaddedSize + 2 * ((RKPulse *)slot(PULSE, 0))->header.capacity * (sizeof(RKInt16C) + 4 * sizeof(RKFloat));
        case RAY: return RKRayHeaderPaddedSize + RKBaseProductCount * ((RKRay *)slot(RAY, 0))->header.capacity * (sizeof(uint8_t) + sizeof(float));
        case POSITION: return sizeof(RKPosition);
        case STAT: return sizeof(RKStatus);
        default: return sizeof(RKHealth);
    }
}
static uint64_t sum(int x, int k) {
    uint8_t *p = slot(x, k), *e = p + stride(x), *a = (uint8_t *)idOf(x, k), *b = rawOf(x, k);
    uint64_t h = 14695981039346656037ull;
    for (; p + 8 <= e; p += 8) {
        uint64_t v; memcpy(&v, p, 8);
        for (int j = 0; j < 8; j++) if ((p + j >= a && p + j < a + 8) || (p + j >= b && p + j < b + rawSize(x))) v &= ~(0xFFull << (8 * j));
        h = (h ^ v) * 1099511628211ull;
    }
    return h;
}
// what is different since the last look; elsewhere: how many slots of the other rings
static int look(int y) {
    char *s = buf, other[100000], *o = other;
    int x, k, elsewhere = 0, n = 0, m = 0;
    s += sprintf(s, "["); o += sprintf(o, "[");
    for (x = 0; x < NODE + nodes; x++) for (k = 0; k < depth[x]; k++) {
        int64_t i = *idOf(x, k); int t = st(x, k); uint64_t h = sum(x, k);
        if (x != y) { elsewhere += i != ids[x][k] || t != sts[x][k] || h != sums[x][k]; }
        else {
            if (i != ids[x][k] || t != sts[x][k]) s += sprintf(s, "%s[%d,%ld,%d]", n++ ? "," : "", k, (long)(i < -2000000000 || i > 2000000000 ? -2000000000 : i), t);
            if (h != sums[x][k]) o += sprintf(o, "%s%d", m++ ? "," : "", k);
        }
        ids[x][k] = i; sts[x][k] = t; sums[x][k] = h;
    }
    sprintf(s, "],%s]", other);
    return elsewhere;
}
static int indexOf(int x, const void *p) { for (int k = 0; k < depth[x]; k++) if (slot(x, k) == p) return k; return -2; }
static void fill(int x, int k) {          // a user fills the slot in
    uint8_t *p = slot(x, k);
    switch (x) {
        case PULSE: { RKPulse *q = (RKPulse *)p; q->header.gateCount = rndn(q->header.capacity + 1); q->header.t = count[x] * 7; memset(q->data, rnd(), 64); if (rndn(3) == 0) { q->header.timeDouble = 5.0; q->header.time.tv_sec = 5; } break; }
        case RAY: { RKRay *q = (RKRay *)p; q->header.gateCount = rndn(10); memset(q->data, rnd(), 64); break; }
        case POSITION: { RKPosition *q = (RKPosition *)p; q->tic = count[x]; q->azimuthDegrees = rndn(360); q->sweepElevationDegrees = 3.0f; break; }
        case STAT: ((RKStatus *)p)->pulseMonitorLag = rndn(100); break;
        default: sprintf(((RKHealth *)p)->string, "{\"n\":%d}", count[x]);
    }
}
static int taken = 0;                      // a position has been taken and is not finished
int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    int k, x, n;
    rnd_seed(seed);
    tr_open(argv[2]);
    RKSetWantScreenOutput(false);
    RKRadarDesc desc;
    memset(&desc, 0, sizeof(desc));
    desc.initFlags = RKInitFlagAllocStatusBuffer | RKInitFlagAllocConfigBuffer | RKInitFlagAllocRawIQBuffer | RKInitFlagAllocPositionBuffer | RKInitFlagAllocMomentBuffer | RKInitFlagAllocHealthBuffer | RKInitFlagAllocHealthNodes | RKInitFlagSignalProcessor | RKInitFlagPulsePositionCombiner;
    desc.pulseCapacity = 256; desc.pulseToRayRatio = 1;
    desc.pulseBufferDepth = 2 + rndn(rndn(3) ? 40 : 9); desc.rayBufferDepth = 2 + rndn(30); desc.positionBufferDepth = 2 + rndn(rndn(3) ? 40 : 9); desc.statusBufferDepth = 2 + rndn(10); desc.healthBufferDepth = 2 + rndn(12); desc.configBufferDepth = 5;
    desc.healthNodeCount = 4 + rndn(3);
    strcpy(desc.dataPath, argv[3]);
    radar = RKInitWithDesc(desc);
    RKSetUseDailyLog(false);
    if (!radar->positionEngine || !radar->healthEngine || !radar->positionClock || !radar->pulseClock) return 3;
    radar->state |= RKRadarStateLive;
    depth[PULSE] = radar->desc.pulseBufferDepth; depth[RAY] = radar->desc.rayBufferDepth; depth[POSITION] = radar->desc.positionBufferDepth; depth[STAT] = radar->desc.statusBufferDepth;
    for (k = 0; k < nodes; k++) depth[NODE + k] = radar->desc.healthBufferDepth;
    char *s = buf + sprintf(buf, "{\"rings\":{");
    for (x = 0; x < NODE + nodes; x++) {
        s += sprintf(s, "%s\"%s\":[\"%s\",%d]", x ? "," : "", names[x], x >= NODE ? "node" : names[x], depth[x]);
        ids[x] = calloc(depth[x], 8); sts[x] = calloc(depth[x], sizeof(int)); sums[x] = calloc(depth[x], 8);
        for (k = 0; k < depth[x]; k++) { ids[x][k] = k - depth[x]; sts[x][k] = 0; sums[x][k] = sum(x, k); }
    }
    tr("%s}}", buf);
    // whatever is not as in a fresh ring shows at the first look
    int weight = rndn(4), e;
    n = 400;
    while (n--) {
        x = rndn(3) ? (weight < 3 ? weight : POSITION) : rndn(NODE + nodes);
        int o = rndn(10);
        if (o < 4) {
            if (x == POSITION && taken) { fill(x, radar->positionIndex); RKSetPositionReady(radar, &radar->positions[radar->positionIndex]); taken = 0; e = look(x); tr("[\"f\",\"%s\",%s,%d]", names[x], buf, e); continue; }
            void *p = x == PULSE ? (void *)RKGetVacantPulse(radar) : x == RAY ? (void *)RKGetVacantRay(radar) : x == POSITION ? (void *)RKGetVacantPosition(radar) : x == STAT ? (void *)RKGetVacantStatus(radar) : (void *)RKGetVacantHealth(radar, x - NODE);
            if (x == POSITION) taken = 1;
            count[x]++;
            k = indexOf(x, p);
            e = look(x);
            tr("[\"g\",\"%s\",%d,%s,%d]", names[x], k, buf, e);
        } else if (o < 8) {
            // one of the recent ones is worked on
            int a = x == PULSE || x == POSITION ? depth[x] / 8 : x >= STAT ? 1 : 0, m = depth[x] - a - 1;
            if (m > count[x]) m = count[x];
            if (m <= 0) continue;
            int64_t i = count[x] - 1 - (rndn(2) ? rndn(m) : 0);
            k = i % depth[x];
            uint8_t *p = slot(x, k);
            if (x != POSITION || (taken && k == radar->positionIndex)) fill(x, k);
            int how = rndn(4);
            switch (x) {
                case PULSE:
                    if (how == 0) RKSetPulseHasData(radar, (RKPulse *)p); else if (how == 1) RKSetPulseReady(radar, (RKPulse *)p); else if (how == 2) ((RKPulse *)p)->header.s |= RKPulseStatusCompressed; else ((RKPulse *)p)->header.s |= RKPulseStatusInspected | RKPulseStatusProcessed;
                    break;
                case RAY:
                    if (how < 2) RKSetRayReady(radar, (RKRay *)p); else if (how == 2) ((RKRay *)p)->header.s |= RKRayStatusProcessing; else ((RKRay *)p)->header.s = RKRayStatusProcessed | RKRayStatusStreamed;
                    break;
                case POSITION: ((RKPosition *)p)->flag |= RKPositionFlagAzimuthEnabled | RKPositionFlagScanActive; break;
                case STAT: RKSetStatusReady(radar, (RKStatus *)p); break;
                default: RKSetHealthReady(radar, (RKHealth *)p);
            }
            int v = st(x, k);
            e = look(x);
            tr("[\"m\",\"%s\",%d,%d,%s,%d]", names[x], k, v, buf, e);
        } else if (o < 9 || x > RAY || rndn(12)) {
            if (x == PULSE) tr("[\"l\",\"pulse\",%d]", indexOf(x, RKGetLatestPulse(radar)));
            if (x == RAY) {
                tr("[\"l\",\"ray\",%d]", indexOf(x, RKGetLatestRay(radar)));
                uint32_t index = 12345;
                RKRay *q = RKGetLatestRayIndex(radar, &index);
                tr("[\"n\",\"ray\",%d]", q == NULL ? -1 : indexOf(x, q) != (int)index ? -3 : (int)index);
            }
            if (x == POSITION) tr("[\"l\",\"position\",%d]", indexOf(x, RKGetLatestPosition(radar)));
            if (x >= NODE) tr("[\"h\",\"%s\",%d]", names[x], indexOf(x, RKGetLatestHealthOfNode(radar, x - NODE)));
            e = look(x);
            if (e || strcmp(buf, "[],[]")) tr("[\"disturbed\",\"%s\",%s,%d]", names[x], buf, e);
        } else {
            if (x == PULSE) { RKClearPulseBuffer(radar->pulses, depth[x]); radar->pulseIndex = 0; } else { RKClearRayBuffer(radar->rays, depth[x]); radar->rayIndex = 0; }
            count[x] = 0;
            e = look(x);
            tr("[\"z\",\"%s\",%s,%d]", names[x], buf, e);
        }
    }
    tr_close();
    _exit(0);
}
