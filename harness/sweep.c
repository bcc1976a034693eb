// C05: drives the real sweep engine with rays of many kinds of sweeps under seeded schedules.
// usage: sweep <seed> <out> <root>
#include <RadarKit.h>
#include "vsched.h"

static RKRadarDesc desc;
static RKSweepEngine *engine;
static RKBuffer rays;
static RKConfig *configs;
static uint32_t configIndex = 0, rayIndex = 0;
static int D, cdepth = 10, G = 24, t0 = 1600000000;
static uint32_t *lastS;
static RKRay **R;
static long *idOf;
static bool stopped;

// ---- trace: runs of alike things are put together
static char runKind; static long runA, runB; static int runM, runC, runG, runL;
static RKBaseProductList lists[6];
static int nlists;
static const char *syms[] = {"Z", "V", "W", "D", "P", "R", "K", "Sh", "Sv", "Q", "Lh", "Lv", "Rxh", "Rxv", "Pxh", "Pxv"};

static void listText(char *s, RKBaseProductList list) {
    int k, n = 0, c = 0;
    n += sprintf(s, "[");
    for (k = 0; k < 16; k++) if (list >> (16 + k) & 1) n += sprintf(s + n, "%s%d", c++ ? "," : "", k);
    sprintf(s + n, "]");
}
static void flush(void) {
    char s[100];
    if (runKind == 'R') { listText(s, lists[runL]); tr("[\"R\",%ld,%ld,%d,%d,%d,%s]", runA, runB, runM, runC, runG, s); }
    else if (runKind) tr("[\"%c\",%ld,%ld]", runKind, runA, runB);
    runKind = 0;
}
static void note(char kind, long id, int m, int c, int g, int l) {
    if (runKind == kind && id == runB + 1 && !(m & 6) && (kind != 'R' || (m == runM && c == runC && g == runG && l == runL))) { runB = id; return; }
    flush();
    runKind = kind; runA = runB = id; runM = m; runC = c; runG = g; runL = l;
    if (m & 6) flush();
}
static void observer(void) {
    int k;
    for (k = 0; k < D; k++) {
        uint32_t s = R[k]->header.s;
        if (s == lastS[k]) continue;
        if ((s & RKRayStatusOverviewed) && !(lastS[k] & RKRayStatusOverviewed)) note('O', idOf[k], R[k]->header.marker & 6, 0, 0, 0);
        if (s == RKRayStatusVacant) note('V', idOf[k], 0, 0, 0, 0);
        lastS[k] = s;
    }
}

static float val(long id, int m, int g) { return (float)(id * 16 + m) + g / 64.0f; }
static float az(long id) { return (id % 2880) / 8.0f; }
static float el(long id) { return (id % 160) / 8.0f; }

size_t __real_RKProductBufferAlloc(RKProduct **, const uint32_t, const uint32_t, const uint32_t);
size_t __wrap_RKProductBufferAlloc(RKProduct **b, const uint32_t depth, const uint32_t rc, const uint32_t gc) {
    return __real_RKProductBufferAlloc(b, depth, rc, 1 + vs_randn(30) / 10 * 5);
}

static int written = 0;
static int recorder(RKProduct *p, const char *filename) {
    int k, g, m, y = 0, ok = 1;
    long id = -1;
    observer();
    flush();
    written++;
    // the name of the file: <root>/moment/YYYYMMDD/XX-YYYYMMDD-HHMMSS-E1.0-Z.nc
    char day[9] = "", day2[9] = "", hms[7] = "", kind = '?', sym[16] = "", ext[16] = "";
    int v1 = -1, v2 = 0, n = 0;
    const char *c = filename;
    size_t q = strlen(desc.dataPath);
    struct tm tm;
    memset(&tm, 0, sizeof(tm));
    if (!strncmp(c, desc.dataPath, q)) {
        c += q;
        if (sscanf(c, "/" RKDataFolderMoment "/%8[0-9]/XX-%8[0-9]-%6[0-9]-%c%n", day, day2, hms, &kind, &n) == 4 && !strcmp(day, day2)) {
            c += n;
            if (kind == 'N') { if (sscanf(c, "%d-%15[A-Za-z].%15s", &v1, sym, ext) == 3) y = v1; else kind = '?'; }
            else if (sscanf(c, "%d.%1d-%15[A-Za-z].%15s", &v1, &v2, sym, ext) == 4) y = v1 * 10 + v2; else kind = '?';
            char s[20];
            sprintf(s, "%s%s", day, hms);
            strptime(s, "%Y%m%d%H%M%S", &tm);
        }
    }
    if (strcmp(ext, "nc") || strcmp(sym, p->desc.symbol)) kind = '?';
    if (p->desc.symbol[0] == 'u') {
        tr("[\"W\",\"%s\",0,0,true,0,0,0,false,false,0,\"%c\",%d,%ld,\"%s\"]", p->desc.symbol, kind, y, (long)timegm(&tm), sym);
        return RKResultSuccess;
    }
    for (m = 0; m < 16; m++) if (!strcmp(p->desc.symbol, syms[m])) break;
    int n1 = p->header.rayCount, gc = p->header.gateCount;
    if (n1 > 0 && gc > 0) id = (long)p->data[0] / 16;
    for (k = 0; k < n1; k++) {
        for (g = 0; g < gc; g++) if (p->data[k * gc + g] != val(id + k, m, g)) ok = 0;
        if (p->startAzimuth[k] != az(id + k) || p->endAzimuth[k] != az(id + k + 1) || p->startElevation[k] != el(id + k) || p->endElevation[k] != el(id + k + 1)) ok = 0;
    }
    tr("[\"W\",\"%s\",%ld,%d,%s,%d,%ld,%ld,%s,%s,%d,\"%c\",%d,%ld,\"%s\"]", p->desc.symbol, id, n1, ok ? "true" : "false", gc, (long)p->header.startTime, (long)p->header.endTime,
       p->header.isPPI ? "true" : "false", p->header.isRHI ? "true" : "false", (int)p->i, kind, y, (long)timegm(&tm), sym);
    if (vs_randn(3) == 0) usleep(vs_randn(60000));
    return vs_randn(8) == 0 ? RKResultFailedToOpenFileForWriting : RKResultSuccess;
}

// ---- plan of rays
typedef struct { uint8_t m, c, g, l; } ray_t;
static ray_t *plan;
static int nplan;
static void put(int m, int c, int g, int l) { plan[nplan++] = (ray_t){m, c, g, l}; }
static void makePlan(int total, bool turns) {
    int c = 0, g = 8, l = 0, k, n, both = 0;
    // something before the first begin
    switch (vs_randn(4)) {
        case 0: n = vs_randn(D / 8); for (k = 0; k < n; k++) put(0, c, g, l); break;
        case 1: n = vs_randn(D / 8); for (k = 0; k < n; k++) put(1, c, g, l); put(5, c, g, l); break;    // an end without begin
        default: break;
    }
    while (nplan < total) {
        n = turns ? 355 + vs_randn(28) : 1 + vs_randn(D / 3);
        if (!turns && vs_randn(3) == 0) n = 1 + vs_randn(4);
        if (n > D / 2 - 4) n = D / 2 - 4;
        if (turns && vs_randn(6) == 0) n = 2 + vs_randn(10);
        if (!both || vs_randn(2)) c = (c + 1) % cdepth;
        if (vs_randn(3) == 0) g = 5 + vs_randn(G - 5);
        if (vs_randn(3) == 0) l = vs_randn(nlists);
        int mids = vs_randn(5) == 0 ? vs_randn(100) : 100, mk;
        k = 0;
        if (both) { both = 0; if (turns && vs_randn(4) == 0) { put(3, c, g, l); k++; } }          // the previous end began this one
        else { put(2 | (vs_randn(4) ? 1 : 0), c, g, l); k++; }
        for (; k < n - 1; k++) { mk = vs_randn(100) < mids; put(mk, c, g, l); }
        switch (vs_randn(turns ? 8 : 6)) {
            case 0: break;                                                           // abandoned
            case 1: case 6: case 7: put(7, c, g, l); both = 1; break;               // ends this one and begins the next
            default:
                put(5, c, g, l);
                if (vs_randn(3) == 0) { int q = vs_randn(6); while (q--) put(0, c, g, l); }          // on the way to the next
        }
    }
}

static void ended(const char *why) { flush(); tr("[\"%s\"]", why); }
static int ends = 0, base0 = 0;

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    vs_conf c;
    int k, m, g;
    vs_conf_from_seed(&c, seed);
    vs_giveup = ended;
    setenv("TZ", "XST6", 1); tzset();
    tr_open(argv[2]);
    RKSetWantScreenOutput(false);
    RKSetRootDataFolder(argv[3]);
    vs_start(&c);
    bool turns = vs_randn(12) == 0, early = vs_randn(4) == 0;
    static const int ds[] = {24, 40, 63, 97, 150};
    D = turns ? 800 + vs_randn(500) : ds[vs_randn(5)];
    int total = turns ? 1100 : 60 + vs_randn(200);
    desc.rayBufferDepth = D; desc.configBufferDepth = cdepth; desc.initFlags = RKInitFlagNone;
    strcpy(desc.dataPath, argv[3]); strcpy(desc.filePrefix, "XX"); strcpy(desc.name, "radar");
    RKRayBufferAlloc(&rays, 64, D);
    R = calloc(D, sizeof(RKRay *)); lastS = calloc(D, 4); idOf = calloc(D, sizeof(long));
    for (k = 0; k < D; k++) { R[k] = RKGetRayFromBuffer(rays, k); R[k]->header.i = k - D; R[k]->header.s = RKRayStatusVacant; }
    RKConfigBufferAlloc(&configs, cdepth);
    char cfgs[2000] = "", prods[4000] = "", s[200];
    for (k = 0; k < cdepth; k++) {
        int kind = vs_randn(3), e = vs_randn(40), a = vs_randn(720);
        configs[k].i = 1000 + k;
        configs[k].startMarker = kind == 0 ? RKMarkerScanTypePPI : kind == 1 ? RKMarkerScanTypeRHI : kind == 2 ? RKMarkerScanTytpePoint : 0;
        if (vs_randn(2)) configs[k].startMarker |= RKMarkerSweepBegin;
        configs[k].sweepElevation = e / 2.0f; configs[k].sweepAzimuth = a / 2.0f;
        sprintf(cfgs + strlen(cfgs), "%s{\"i\":%d,\"kind\":\"%c\",\"el\":%d,\"az\":%d}", k ? "," : "", 1000 + k, "PRN"[kind], e * 5, a * 5);
    }
    nlists = 1 + vs_randn(5);
    for (k = 0; k < nlists; k++) { lists[k] = (vs_rand() & 0xffff) << 16; if (vs_randn(2)) lists[k] |= 0x3f << 16; }
    RKBaseProductList base = RKBaseProductListFloatZVWDPR;
    if (vs_randn(2)) base = (vs_rand() & vs_rand() & 0xffff) << 16;
    engine = RKSweepEngineInit();
    engine->baseProductList = base;
    RKSweepEngineSetProductRecorder(engine, recorder);
    RKSweepEngineSetEssentials(engine, &desc, NULL, configs, &configIndex, rays, &rayIndex);
    bool record = vs_randn(4) > 0;
    RKSweepEngineSetRecord(engine, record);
    if (vs_randn(2)) RKSweepEngineSetVerbose(engine, 3);
    for (k = 0, m = 0; k < 16; k++) if (base >> (16 + k) & 1) sprintf(prods + strlen(prods), "%s{\"sym\":\"%s\",\"base\":true,\"list\":[%d]}", m++ ? "," : "", syms[k], k);
    int users = vs_randn(3) == 0 ? vs_randn(4) : 0;
    RKBaseProductList ul[4];
    for (k = 0; k < users; k++) {
        ul[k] = (vs_rand() & vs_rand() & 0xffff) << 16;
        listText(s, ul[k]);
        sprintf(prods + strlen(prods), "%s{\"sym\":\"u%c\",\"base\":false,\"list\":%s}", m++ ? "," : "", 'a' + k, s);
    }
    plan = calloc(total + D + 2000, sizeof(ray_t));
    makePlan(total, turns);
    tr("{\"turn\":360,\"D\":%d,\"t0\":%d,\"rec\":%s,\"cfgs\":[%s],\"prods\":[%s]}", D, t0, record ? "true" : "false", cfgs, prods);
    vs_observer = observer;
    RKSweepEngineStart(engine);
    for (k = 0; k < users; k++) {
        RKProductDesc d;
        memset(&d, 0, sizeof(d));
        sprintf(d.symbol, "u%c", 'a' + k); sprintf(d.name, "user%d", k); d.baseProductList = ul[k];
        RKSweepEngineDescribeProduct(engine, d);
    }
    int threads = vs_alive(), stopAt = early ? vs_randn(nplan) : -1, is = 0, pace = vs_randn(3);
    bool open = false;
    int q = 0;
    for (k = 0; q < nplan; k++, q++) {
        if (k == stopAt) break;
        // the ring holds what is not finished
        while (k > 0 && (k - base0 > D / 2 || vs_randn(60) == 0)) {
            int t;
            for (t = 0; t < 20000; t++) {
                if (engine->processedRayIndex == (k + D - 1) % D && vs_alive() == threads && engine->business == (open ? 1 : 0)) break;
                usleep(10000);
            }
            usleep(200000);
            if (engine->processedRayIndex == (k + D - 1) % D && vs_alive() == threads && engine->business == (open ? 1 : 0)) {
                base0 = open ? is : k - 1;
                if (vs_randn(5) == 0) { flush(); record = !record; RKSweepEngineSetRecord(engine, record); tr("[\"K\",%s]", record ? "true" : "false"); }
                if (open && vs_randn(8) == 0) { flush(); tr("[\"X\"]"); open = false; RKSweepEngineFlush(engine); usleep(300000); while (q < nplan && (plan[q].m & 6) != 2) q++; if (q == nplan) goto over; continue; }
                break;
            }
            flush(); tr("[\"busy\",%d,%d,%d]", (int)engine->business, vs_alive() - threads, (int)engine->processedRayIndex); t = 0;
            goto done;
        }
        RKRay *r = R[k % D];
        ray_t *p = &plan[q];
        r->header.s = RKRayStatusProcessing;
        r->header.i = k; r->header.marker = p->m; r->header.configIndex = p->c; r->header.gateCount = p->g; r->header.gateSizeMeters = 30.0f;
        r->header.baseProductList = lists[p->l]; r->header.pulseCount = 10;
        r->header.startTime.tv_sec = t0 + k / 4; r->header.endTime.tv_sec = t0 + k / 4 + 1;
        r->header.startAzimuth = az(k); r->header.endAzimuth = az(k + 1); r->header.startElevation = el(k); r->header.endElevation = el(k + 1);
        for (m = 0; m < 16; m++) { float *x = RKGetFloatDataFromRay(r, m); for (g = 0; g < G; g++) x[g] = val(k, m, g); }
        idOf[k % D] = k;
        lastS[k % D] = RKRayStatusReady;
        note('R', k, p->m, p->c, p->g, p->l);
        if (p->m & 2) { is = k; open = true; } else if (p->m & 4) open = false;
        if (p->m & 4) ends++;
        r->header.s = RKRayStatusReady;
        rayIndex = (k + 1) % D;
        if (pace == 0 && vs_randn(4) == 0) usleep(vs_randn(40000));
        if (pace == 1) usleep(20000 + vs_randn(20000));
        if (pace == 2 && vs_randn(20) == 0) vs_yield();
    }
over:
    if (q < nplan) { if (vs_randn(2)) usleep(vs_randn(400000)); }
    else {
        int t;
        for (t = 0; t < 20000; t++) {
            if (engine->processedRayIndex == (k + D - 1) % D && vs_alive() == threads && engine->business == (open ? 1 : 0)) break;
            usleep(10000);
        }
        usleep(500000);
        RKSweepEngineWaitWhileBusy(engine);
        observer(); flush();
        if (open) { tr("[\"X\"]"); RKSweepEngineFlush(engine); usleep(500000); observer(); flush(); }
        tr("[\"E\"]");
    }
    RKSweepEngineStop(engine);
    observer(); flush();
    tr("[\"S\",%d]", (int)engine->business);
done:
    usleep(1000000);
    observer(); flush();
    vs_observer = NULL;
    tr("[\"end\",%d,%lu,%lu,%d]", vs_alive(), vs_switches(), vs_blocks(), written);
    tr_close();
    _exit(0);
}
