// C06: threads change the configuration; every published entry is dumped and the older ones are watched.
// usage: config <seed> <out> <root>
#include <RadarKit.h>
#include "vsched.h"

static RKRadar *radar;
static RKConfig *shadow;
static uint32_t last, depth;
static int nthreads, nops, scan = 0, spoiled = 0;
static RKWaveform wf[6];
static RKWaveformCalibration wc[4];
static const char *wn[6] = {"", "alpha", "beta", "gamma", "delta", "bad"};
static char user[4];

static int prf(float x) { return x > 0.0f ? (int)roundf(1.0f / x) : 0; }
static int windex(RKWaveform *w) { return w ? (int)(w - wf) : 0; }
static int num(float x) { return x == floorf(x) && fabsf(x) < 1e6f ? (int)x : -9999; }
static int text(char *s, const char *x, const int cap) {
    size_t n = strnlen(x, cap), k;
    for (k = 1; k < n && x[k] == x[k - 1]; k++);
    if (n > 8 && k == n) return sprintf(s, "[\"%c\",%zu]", x[0], n);
    return sprintf(s, "[\"%.60s\",%zu]", x, n);
}
static void dump(const uint32_t slot) {
    RKConfig *c = &radar->configs[slot];
    char s[6000];
    int j, n = 0, same = 1;
    n += sprintf(s + n, "{\"el\":%d,\"az\":%d,\"mk\":%u,\"prf0\":%d,\"prf1\":%d,\"gc\":%u,\"gs\":%d,", num(c->sweepElevation), num(c->sweepAzimuth), c->startMarker, prf(c->prt[0]), prf(c->prt[1]), c->pulseGateCount, num(c->pulseGateSize));
    for (j = 1; j < RKMaximumFilterCount; j++) same &= c->pw[j] == c->pw[0] && (j < 2 || c->prt[j] == 0.0f);
    for (j = 0; j < RKMaximumFilterCount; j++) same &= c->waveformId[j] == 0;
    n += sprintf(s + n, "\"pw\":%d,\"n0\":%d,\"n1\":%d,\"z0\":%d,\"z1\":%d,\"dc\":%d,\"pc\":%d,\"snr\":%d,\"sqi\":%d,", same ? num(c->pw[0]) : -1, num(c->noise[0]), num(c->noise[1]),
        num(c->systemZCal[0]), num(c->systemZCal[1]), num(c->systemDCal), num(c->systemPCal), num(c->SNRThreshold), num(c->SQIThreshold));
    n += sprintf(s + n, "\"ring\":%u,\"tr\":%u,\"wf\":%d,\"wd\":%d,\"us\":%d,\"cal\":[", c->ringFilterGateCount, c->transitionGateCount, windex(c->waveform), windex(c->waveformDecimate), c->userResource ? (int)((char *)c->userResource - user) : 0);
    for (j = 0; j < RKMaximumFilterCount; j++) n += sprintf(s + n, "%s[%d,%d,%d,%d]", j ? "," : "", num(c->ZCal[j][0]), num(c->ZCal[j][1]), num(c->DCal[j]), num(c->PCal[j]));
    n += sprintf(s + n, "],\"nm\":"); n += text(s + n, c->waveformName, RKNameLength);
    n += sprintf(s + n, ",\"vcp\":"); n += text(s + n, c->vcpDefinition, RKMaximumCommandLength);
    sprintf(s + n, "}");
    tr("[\"P\",%u,%d,%s]", slot, (int)c->i, s);
}
static void observer(void) {
    uint32_t k, i = radar->configIndex;
    if (i != last) {
        uint32_t s = last;
        last = i;
        if (i >= depth || (s + 1) % depth != i) { tr("[\"jump\",%u,%u]", s, i); return; }
        memcpy(&shadow[s], &radar->configs[s], sizeof(RKConfig));
        dump(s);
        for (k = 0; k < depth; k++)
            if (k != i && memcmp(&shadow[k], &radar->configs[k], sizeof(RKConfig)) && !spoiled) { spoiled = 1; tr("[\"X\",%u]", k); }
    } else {
        // one of the older entries at a time; the one at the index may be under construction
        scan = (scan + 1) % depth;
        if ((uint32_t)scan != i && memcmp(&shadow[scan], &radar->configs[scan], sizeof(RKConfig)) && !spoiled) { spoiled = 1; tr("[\"X\",%d]", scan); }
    }
}

// an argument list made at run time (x86-64: everything in the overflow area)
typedef struct { uint64_t a[80]; int n; char s[2000]; int m; } args_t;
static void ai(args_t *a, const int key) { a->a[a->n++] = (uint32_t)key; }
static void ap(args_t *a, void *p) { a->a[a->n++] = (uint64_t)p; }
static void ad(args_t *a, const double d) { memcpy(&a->a[a->n++], &d, 8); }
__attribute__((format(printf, 2, 3))) static void as(args_t *a, const char *f, ...) {
    va_list v; va_start(v, f);
    if (a->m) a->s[a->m++] = ',';
    a->m += vsprintf(a->s + a->m, f, v); va_end(v);
}
static void add(args_t *a, char *buf) {
    int x = 1 + vs_randn(9), y = 1 + vs_randn(9), k;
    switch (vs_randn(22)) {
        case 0: ai(a, RKConfigKeySweepElevation); ad(a, x); as(a, "[\"el\",%d]", x); break;
        case 1: ai(a, RKConfigKeySweepAzimuth); ad(a, x); as(a, "[\"az\",%d]", x); break;
        case 2: ai(a, RKConfigKeyPositionMarker); ai(a, x); as(a, "[\"mk\",%d]", x); break;
        case 3: x *= 100; ai(a, RKConfigKeyPRF); ad(a, x); as(a, "[\"prf\",%d]", x); break;
        case 4: x *= 100; y *= 100; ai(a, RKConfigKeyDualPRF); ad(a, x); ad(a, y); as(a, "[\"dual\",%d,%d]", x, y); break;
        case 5: ai(a, RKConfigKeyPulseGateCount); ai(a, x); as(a, "[\"gc\",%d]", x); break;
        case 6: ai(a, RKConfigKeyPulseGateSize); ad(a, x); as(a, "[\"gs\",%d]", x); break;
        case 7: ai(a, RKConfigKeyPulseWidth); ad(a, x); as(a, "[\"pw\",%d]", x); break;
        case 8: case 9: case 10:
            k = vs_randn(6);
            ai(a, RKConfigKeyWaveform); ap(a, k ? &wf[k] : NULL); as(a, "[\"wf\",%d]", k); break;
        case 11: k = vs_randn(6);
            ai(a, RKConfigKeyWaveformDecimate); ap(a, k ? &wf[k] : NULL); as(a, "[\"wd\",%d]", k); break;
        case 12: k = vs_randn(3) ? 1 + vs_randn(6) : 100 + vs_randn(80);
            memset(buf, 'a' + x, k); buf[k] = 0;
            ai(a, RKConfigKeyWaveformName); ap(a, buf); if (k > 8) as(a, "[\"nm\",\"%c\",%d]", 'a' + x, k); else as(a, "[\"nm\",\"%s\",%d]", buf, k); break;
        case 13: ai(a, RKConfigKeySystemNoise); ad(a, x); ad(a, y); as(a, "[\"noise\",%d,%d]", x, y); break;
        case 14: ai(a, RKConfigKeySystemZCal); ad(a, x); ad(a, y); as(a, "[\"zcal\",%d,%d]", x, y); break;
        case 15: ai(a, RKConfigKeySystemDCal); ad(a, x); as(a, "[\"dc\",%d]", x);
                 ai(a, RKConfigKeySystemPCal); ad(a, y); as(a, "[\"pc\",%d]", y); break;
        case 16: case 17: k = vs_randn(4);
            ai(a, RKConfigKeyWaveformCalibration); ap(a, k ? &wc[k] : NULL); as(a, "[\"cal\",%d]", k); break;
        case 18: ai(a, RKConfigKeySNRThreshold); ad(a, x); as(a, "[\"snr\",%d]", x); break;
        case 19: ai(a, RKConfigKeySQIThreshold); ad(a, x); as(a, "[\"sqi\",%d]", x); break;
        case 20:
            buf += 300;
            k = vs_randn(5) ? vs_randn(3) ? 1 + vs_randn(6) : 230 + vs_randn(330) : -1;
            if (k > 0) { memset(buf, 'a' + x, k); buf[k] = 0; }
            ai(a, RKConfigKeyVCPDefinition); ap(a, k > 0 ? buf : NULL); if (k > 8) as(a, "[\"vcp\",\"%c\",%d]", 'a' + x, k); else as(a, "[\"vcp\",\"%s\",%d]", k > 0 ? buf : "", k); break;
        default:
            if (vs_randn(3) == 0) { k = vs_randn(3); ai(a, RKConfigKeyUserResource); ap(a, k ? &user[k] : NULL); as(a, "[\"us\",%d]", k); }
            else if (vs_randn(2)) { ai(a, RKConfigKeyRingFilterGateCount); ai(a, x); as(a, "[\"ring\",%d]", x); }
            else { ai(a, RKConfigKeyTransitionGateCount); ai(a, x); as(a, "[\"tr\",%d]", x); }
            break;
    }
}
static void *worker(void *x) {
    int t = (int)(long)x, k, j, n;
    char buf[4][1000];
    for (k = 0; k < nops; k++) {
        args_t a = {.n = 0, .m = 0};
        n = vs_randn(5);
        for (j = 0; j < n; j++) add(&a, buf[j]);
        ai(&a, RKConfigKeyNull);
        union { va_list v; struct { unsigned int gp, fp; void *overflow, *save; } r; } u;
        u.r.gp = 48; u.r.fp = 176; u.r.overflow = a.a; u.r.save = NULL;
        observer();
        a.s[a.m] = 0;
        tr("[\"c\",%d,[%s]]", t, a.s);
        RKConfigAdvance(radar->configs, &radar->configIndex, radar->desc.configBufferDepth, u.v);
        observer();
        tr("[\"r\",%d,%d]", t, (int)radar->configs[RKPreviousModuloS(radar->configIndex, depth)].i);
        if (vs_randn(3) == 0) usleep(vs_randn(60));
    }
    return NULL;
}
static void quiet(void) {
    tr("[\"N\",%d]", (int)(RKGetLatestConfig(radar) - radar->configs));
    uint32_t k;
    for (k = 0; k < depth + 3; k++) {
        int id = (int)RKGetLatestConfig(radar)->i + 1 - (int)k;
        RKConfig *p = RKConfigWithId(radar->configs, depth, id);
        tr("[\"L\",%d,%d]", id, p ? (int)(p - radar->configs) : -1);
    }
}
static void ended(const char *why) { tr("[\"%s\"]", why); }

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    vs_conf c;
    int k, j, ph;
    vs_conf_from_seed(&c, seed);
    vs_giveup = ended;
    tr_open(argv[2]);
    RKSetWantScreenOutput(vs_randn(2));
    RKSetRootDataFolder(argv[3]);
    for (k = 1; k < 6; k++) { strcpy(wf[k].name, wn[k]); wf[k].count = 1; wf[k].filterCounts[0] = k == 5 ? 0 : k == 4 ? RKMaximumFilterCount : k; }
    for (k = 1; k < 4; k++) {
        wc[k].count = k == 3 ? RKMaximumFilterCount : k;
        for (j = 0; j < wc[k].count; j++) { wc[k].ZCal[j][0] = 10 * k + j; wc[k].ZCal[j][1] = 20 * k + j; wc[k].DCal[j] = 30 * k + j; wc[k].PCal[j] = 40 * k + j; }
    }
    radar = calloc(1, sizeof(RKRadar));
    radar->desc.configBufferDepth = depth = 2 + vs_randn(5);
    RKConfigBufferAlloc(&radar->configs, depth);
    for (k = 0; k < (int)depth; k++) radar->configs[k].i = -(uint64_t)depth + k + 1000;
    shadow = malloc(depth * sizeof(RKConfig));
    memcpy(shadow, radar->configs, depth * sizeof(RKConfig));
    vs_start(&c);
    vs_observer = observer;
    nthreads = 1 + vs_randn(3); nops = 3 + vs_randn(8);
    tr("{\"depth\":%u,\"threads\":%d}", depth, nthreads);
    for (ph = 0; ph < 2; ph++) {
        pthread_t tid[8];
        for (k = 0; k < nthreads; k++) pthread_create(&tid[k], NULL, worker, (void *)(long)(k + 1));
        for (k = 0; k < nthreads; k++) pthread_join(tid[k], NULL);
        quiet();
    }
    tr("[\"end\",%d,%lu,%lu]", vs_alive(), vs_switches(), vs_blocks());
    tr_close();
    _exit(0);
}
