// C09: drives the real raw data recorder with pulses of many kinds under seeded schedules; reads back every file it closes.
// usage: recorder <seed> <out> <root>
#include <RadarKit.h>
#include "vsched.h"
#include <dirent.h>

static RKRadarDesc desc;
static RKRawDataRecorder *engine;
static RKBuffer pulses;
static RKConfig *configs;
static uint32_t configIndex = 0, pulseIndex = 0;
static int D, cap = 64, cdepth = 10, files = 0, marked = 0;
static char root[1000], opened[2000];
static int ofd = -1;
static double t0;
static long base;                      // identity of the first pulse of this round
static uint64_t *was;

static int short0;                     // writes may be short

// what pulse id holds
static int gates(long id) { uint64_t x = (uint64_t)id * 2654435761u; return (x >> 7) % 5 == 0 ? (x >> 11) % 3 : (x >> 11) % (cap + 1); }
static int down(long id) { uint64_t x = (uint64_t)id * 40503u + 77; return (x >> 5) % 5 == 0 ? (x >> 9) % 3 : (x >> 9) % (cap / 2 + 1); }
static int16_t ival(long id, int p, int g, int q) { return (int16_t)(id * 131 + p * 17 + g * 3 + q); }
static float fval(long id, int p, int g, int q) { return (float)(id * 7 + p * 1000 + g * 2 + q) / 8.0f; }
static long *msOf, nms;                // time of pulse id in ms after t0

static struct { int i; RKWaveform *w; } hist[400];
static int nhist;

static void fill(RKPulseHeader *h, long id, int c) {
    h->i = id; h->n = id * 3; h->t = id * 5; h->gateCount = gates(id); h->downSampledGateCount = down(id);
    h->pulseWidthSampleCount = id % 9; h->marker = id % 4; h->configIndex = c; h->configSubIndex = id % 3; h->positionIndex = id % 50;
    h->rawAzimuth.u32 = id * 11; h->rawElevation.u32 = id * 13; h->gateSizeMeters = 30.0f + id; h->elevationDegrees = id / 2.0f; h->azimuthDegrees = id / 4.0f;
    h->elevationVelocityDegreesPerSecond = id / 8.0f; h->azimuthVelocityDegreesPerSecond = id / 16.0f;
    h->timeDouble = t0 + msOf[id] * 0.001; h->time.tv_sec = (long)t0 + msOf[id] / 1000; h->time.tv_usec = msOf[id] % 1000 * 1000 + id % 1000;
}

static int take(FILE *f, void *b, size_t n) { return n == 0 || fread(b, n, 1, f) == 1; }

// the contents of a file, read byte by byte and with the reader of the library
static void readFile(const char *name, int *ci, int *kind, long *a, long *b) {
    static char buf[1 << 16];
    FILE *f = fopen(name, "r");
    int k, p, g, bad = 0;
    *ci = *kind = 0; *a = *b = -9;
    if (!f) return;
    RKFileHeader *fh = calloc(1, sizeof(RKFileHeader));
    RKWaveFileGlobalHeader *wh = calloc(1, sizeof(RKWaveFileGlobalHeader));
    if (!take(f, fh, 4096) || !take(f, wh, 512)) bad = 1;
    *ci = (int)fh->config.i;
    *kind = fh->dataType == RKRawDataTypeFromTransceiver ? 1 : fh->dataType == RKRawDataTypeAfterMatchedFilter ? 2 : 9;
    if (strcmp(fh->preface, "RadarKit/IQ") || fh->version != RKRawDataVersion || strcmp(fh->desc.name, "radar") || memcmp(fh->bytes + 4093, "EOL", 3)) bad = 2;
    if (fh->desc.pulseBufferDepth != D || fh->config.waveform != NULL) bad = 3;
    RKWaveform *w = NULL;
    for (k = 0; k < nhist; k++) if (hist[k].i == *ci) w = hist[k].w;
    if (!w || strcmp(fh->config.waveformName, w->name) || fh->config.sweepElevation != *ci % 90 || fh->config.prt[0] != 0.001f * (*ci - 999)) bad = 4;
    if (!bad && (strcmp(wh->name, w->name) || wh->count != w->count || wh->depth != w->depth || wh->type != w->type || wh->fc != w->fc || wh->fs != w->fs)) bad = 5;
    for (k = 0; !bad && k < w->count; k++) {
        if (wh->filterCounts[k] != w->filterCounts[k]) bad = 6;
        else if (!take(f, buf, w->filterCounts[k] * sizeof(RKFilterAnchor)) || memcmp(buf, w->filterAnchors[k], w->filterCounts[k] * sizeof(RKFilterAnchor))) bad = 7;
        else if (!take(f, buf, w->depth * sizeof(RKComplex)) || memcmp(buf, w->samples[k], w->depth * sizeof(RKComplex))) bad = 8;
        else if (!take(f, buf, w->depth * sizeof(RKInt16C)) || memcmp(buf, w->iSamples[k], w->depth * sizeof(RKInt16C))) bad = 9;
    }
    long id = -1, body = ftell(f);
    int n = 0;
    while (!bad) {
        RKPulseHeader h, x;
        size_t r = fread(&h, 1, sizeof(h), f);
        if (r == 0) break;
        if (r != sizeof(h)) { bad = 10; break; }
        if (n == 0) { id = h.i; *a = id - base + 1; } else id++;
        n++;
        if (h.i != id || id < 0 || id >= nms) { bad = 11; break; }
        memset(&x, 0, sizeof(x));
        x.capacity = cap; fill(&x, id, h.configIndex); x.s = h.s;
        if (memcmp(&x, &h, offsetof(RKPulseHeader, compressorDataType)) || !(h.s & RKPulseStatusUsedForMoments)) { bad = 12; break; }
        for (p = 0; p < 2 && !bad; p++) {
            int m = *kind == 1 ? gates(id) : down(id);
            if (!take(f, buf, m * (*kind == 1 ? sizeof(RKInt16C) : sizeof(RKComplex)))) bad = 13;
            for (g = 0; g < m && !bad; g++) {
                if (*kind == 1) { RKInt16C *v = (RKInt16C *)buf + g; if (v->i != ival(id, p, g, 0) || v->q != ival(id, p, g, 1)) bad = 14; }
                else { RKComplex *v = (RKComplex *)buf + g; if (v->i != fval(id, p, g, 0) || v->q != fval(id, p, g, 1)) bad = 15; }
            }
        }
    }
    *b = n == 0 ? -8 : id - base + 1;
    // the reader of the library gets the same
    if (!bad) {
        rewind(f);
        RKFileHeader *r = RKFileHeaderRead(f);
        if (ftell(f) != body || r->config.i != fh->config.i || r->dataType != fh->dataType || r->config.waveform->depth != w->depth) bad = 16;
        RKBuffer one;
        RKPulseBufferAlloc(&one, cap, 1);
        RKPulse *q = RKGetPulseFromBuffer(one, 0);
        long m = 0;
        while (!bad && RKReadPulseFromFileReference(q, r, f) == RKResultSuccess) {
            long id2 = *a + base - 1 + m++;
            if (q->header.i != id2 || q->header.gateCount != gates(id2) || q->header.azimuthDegrees != id2 / 4.0f || q->header.marker != id2 % 4) bad = 17;
            for (p = 0; p < 2 && !bad; p++) for (g = 0; g < (*kind == 1 ? gates(id2) : down(id2)) && !bad; g++) {
                if (*kind == 1) { RKInt16C *v = RKGetInt16CDataFromPulse(q, p) + g; if (v->i != ival(id2, p, g, 0) || v->q != ival(id2, p, g, 1)) bad = 18; }
                else { RKComplex *v = RKGetComplexDataFromPulse(q, p) + g; if (v->i != fval(id2, p, g, 0) || v->q != fval(id2, p, g, 1)) bad = 19; }
            }
        }
        if (m != n) bad = 20;
        RKReadPulseFromFileReference(NULL, NULL, NULL);
        RKPulseBufferFree(one);
    }
    fclose(f);
    free(fh); free(wh);
    if (bad) { *a = -bad; *b = -1000 - n; }
}

static int raw(const char *s) { size_t n = strlen(s); return n > 4 && (!strcmp(s + n - 4, ".rkr") || !strcmp(s + n - 4, ".rkc")); }

int __real_open(const char *, int, ...);
int __wrap_open(const char *name, int flags, ...) {
    int fd;
    if (!raw(name) || !(flags & O_CREAT)) { va_list v; va_start(v, flags); int m = va_arg(v, int); va_end(v); return __real_open(name, flags, m); }
    // <root>/iq/YYYYMMDD/XX-YYYYMMDD-HHMMSS.mmm.rkr
    char day[9] = "", day2[9] = "", hms[7] = "", s[20], ext[5] = "";
    int ms = -1;
    long t = -1;
    struct tm tm;
    memset(&tm, 0, sizeof(tm));
    if (!strncmp(name, root, strlen(root)) && sscanf(name + strlen(root), "/" RKDataFolderIQ "/%8[0-9]/XX-%8[0-9]-%6[0-9].%3d.%4s", day, day2, hms, &ms, ext) == 5 && !strcmp(day, day2)) {
        sprintf(s, "%s%s", day, hms);
        strptime(s, "%Y%m%d%H%M%S", &tm);
        t = ((long)timegm(&tm) - (long)t0) * 1000 + ms;
    }
    if (vs_randn(3) == 0) {                      // something is there already
        char dir[2000], *c;
        strcpy(dir, name);
        RKPreparePath(name);
        FILE *f = fopen(name, "w");
        if (f) { for (int k = 0; k < 20000; k++) fputc('#', f); fclose(f); }
        (void)c;
    }
    fd = __real_open(name, flags, 0644);
    tr("[\"O\",%ld,%d]", t, !strcmp(ext, "rkr") ? 1 : !strcmp(ext, "rkc") ? 2 : 0);
    if (ofd >= 0) tr("[\"two\"]");
    ofd = fd;
    strcpy(opened, name);
    files++;
    return fd;
}
int __real_close(int);
int __wrap_close(int fd) {
    int r = __real_close(fd);
    if (fd >= 0 && fd == ofd) {
        int ci, kind;
        long a, b;
        ofd = -1;
        readFile(opened, &ci, &kind, &a, &b);
        tr("[\"X\",%d,%d,%ld,%ld]", ci, kind, a, b);
    }
    return r;
}
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    if (fd == ofd && short0 && n > 1) {
        if (vs_randn(4) == 0) { errno = EINTR; return -1; }
        if (vs_randn(3) == 0) n = 1 + vs_randn(n - 1);
    }
    return __real_write(fd, b, n);
}
int __real_remove(const char *);
int __wrap_remove(const char *name) { tr("[\"remove\"]"); return __real_remove(name); }
int __wrap_RKFileManagerAddFile(RKFileManager *m, const char *name, RKFileType type) {
    tr("[\"A\",%d]", m == (void *)&desc && !strcmp(name, opened) && type == RKFileTypeIQ);
    if (vs_randn(4) == 0) usleep(vs_randn(30000));
    return RKResultSuccess;
}

static int count(const char *path) {
    char s[3000];
    int n = 0;
    DIR *d = opendir(path);
    struct dirent *e;
    if (!d) return 0;
    while ((e = readdir(d))) {
        if (e->d_name[0] == '.') continue;
        snprintf(s, sizeof(s), "%s/%s", path, e->d_name);
        if (raw(e->d_name)) n++; else n += count(s);
    }
    closedir(d);
    return n;
}

static long *idOf;
static long fedTo;                     // pulses of this round
static void observer(void) {
    for (int k = 0; k < D; k++) {
        uint32_t s = RKGetPulseFromBuffer(pulses, k)->header.s;
        if ((s & RKPulseStatusRecorded) && !(was[k] & RKPulseStatusRecorded)) {
            marked++;
            tr("[\"M\",%ld]", idOf[k] < 0 ? 999999 : idOf[k] - base + 1);
            was[k] = s;
        }
    }
}
static void ended(const char *why) { tr("[\"%s\"]", why); }

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    vs_conf c;
    int k, m, g, p;
    vs_conf_from_seed(&c, seed);
    vs_giveup = ended;
    setenv("TZ", "XST6", 1); tzset();
    tr_open(argv[2]);
    RKSetWantScreenOutput(false);
    strcpy(root, argv[3]);
    RKSetRootDataFolder(root);
    vs_start(&c);
    static const int ds[] = {40, 63, 97, 150};
    D = ds[vs_randn(4)];
    t0 = vs_randn(2) ? 1600000000 : 1600041595;     // 86395 s into a day
    desc.pulseBufferDepth = D; desc.configBufferDepth = cdepth; desc.pulseCapacity = cap; desc.pulseToRayRatio = 1; desc.initFlags = RKInitFlagNone;
    strcpy(desc.dataPath, root); strcpy(desc.filePrefix, "XX"); strcpy(desc.name, "radar");
    RKPulseBufferAlloc(&pulses, cap, D);
    was = calloc(D, 8); idOf = calloc(D, sizeof(long));
    RKConfigBufferAlloc(&configs, cdepth);
    int total = 30 + vs_randn(90), rounds = 1 + vs_randn(3), ci = 1000 + vs_randn(5), pace = vs_randn(4), far = D / 4 - 2, lag = 1 + vs_randn(vs_randn(2) ? 4 : far);
    if (lag > far) lag = far;
    if (vs_randn(4) == 0) ci = 1004 + vs_randn(10);
    nms = (long)total * rounds + 10;
    msOf = calloc(nms + 1, sizeof(long));
    long ms = vs_randn(2000);
    for (k = 0; k <= nms; k++) { msOf[k] = ms; ms += 1 + (vs_randn(3) ? vs_randn(3) : vs_randn(30) ? vs_randn(1500) : vs_randn(1500000)); }
    bool rec = vs_randn(2);
    int kind = 1 + vs_randn(2);
    short0 = vs_randn(3) == 0;
    engine = RKRawDataRecorderInit();
    RKRawDataRecorderSetEssentials(engine, &desc, (void *)&desc, configs, &configIndex, pulses, &pulseIndex);
    int mx = vs_randn(3) == 0 ? 1 + vs_randn(4) : vs_randn(2) ? 5 + vs_randn(20) : 100000;
    RKRawDataRecorderSetMaximumRecordDepth(engine, mx);
    static const int cs[] = {1, 64, 192, 512, 1000, 4096, 4608, 5000, 20000, 1 << 20};
    RKRawDataRecorderSetCacheSize(engine, vs_randn(3) ? cs[vs_randn(10)] : 1 + vs_randn(9000));
    RKRawDataRecorderSetRecord(engine, rec);
    RKRawDataRecorderSetRawDataType(engine, kind == 1 ? RKRawDataTypeFromTransceiver : RKRawDataTypeAfterMatchedFilter);
    if (vs_randn(2)) RKRawDataRecorderSetVerbose(engine, 2);
    tr("{\"max\":%d,\"rec\":%s,\"kind\":%d}", mx, rec ? "true" : "false", kind);
    long id = 0;
    int rare = 2 + vs_randn(30);
    for (k = 0; k < rounds; k++) {
        base = id; pulseIndex = 0;
        long used = 0, fed = 0;                                        // of this round, used : all before are
        bool *u = calloc(total + 1, sizeof(bool));
        int *cAt = calloc(total + 1, sizeof(int)), cn = 0;            // number of the configuration of every pulse
        for (m = 0; m < D; m++) { RKGetPulseFromBuffer(pulses, m)->header.s = RKPulseStatusVacant; was[m] = 0; idOf[m] = -1; }
        tr("[\"g\"]");
        RKRawDataRecorderStart(engine);
        int alive = vs_alive(), n = total, stopAt = vs_randn(2) ? (int)vs_randn(total) : total, first = 1;
        (void)alive;
        while (fed < n) {
            if (fed == stopAt) break;
            // a sweep of another configuration
            if (first || (vs_randn(rare) == 0 && cn - cAt[engine->tic > 1 ? engine->tic - 2 : 0] < cdepth - 3)) {
                if (!first || id == 0 || vs_randn(2)) {
                    if (id) ci++;
                    cn++;
                    m = ci % cdepth;
                    RKConfig *q = &configs[m];
                    memset(q, 0, sizeof(RKConfig));
                    RKWaveform *w = RKWaveformInitWithCountAndDepth(1 + vs_randn(2), 1 + vs_randn(40));
                    sprintf(w->name, "w%d", ci); w->type = RKWaveformTypeIsComplex; w->fc = ci; w->fs = 2.0 * ci;
                    for (p = 0; p < w->count; p++) {
                        w->filterCounts[p] = 1 + vs_randn(2);
                        for (g = 0; g < w->filterCounts[p]; g++) { w->filterAnchors[p][g].length = 1 + vs_randn(w->depth); w->filterAnchors[p][g].name = g; w->filterAnchors[p][g].maxDataLength = RKMaximumGateCount; }
                        for (g = 0; g < w->depth; g++) { w->samples[p][g].i = ci + g; w->samples[p][g].q = p - g; w->iSamples[p][g].i = g * 3; w->iSamples[p][g].q = p * 9; }
                    }
                    q->i = ci; q->sweepElevation = ci % 90; q->prt[0] = 0.001f * (ci - 999); strcpy(q->waveformName, w->name);
                    q->waveform = ci < 1004 && vs_randn(3) == 0 ? NULL : w;
                    hist[nhist].i = ci; hist[nhist++].w = w;
                    configIndex = m;
                }
                first = 0;
            }
            if (vs_randn(rare) == 0) {
                rec = !rec;
                tr("[\"K\",%ld]", (long)engine->tic - 1);
                tr("[\"r\",%s]", rec ? "true" : "false");
                RKRawDataRecorderSetRecord(engine, rec);
                tr("[\"K\",%ld]", (long)engine->tic - 1);
                tr("[\"R\",%s]", rec ? "true" : "false");
            }
            if (vs_randn(rare * 2) == 0) {
                kind = 3 - kind;
                tr("[\"K\",%ld]", (long)engine->tic - 1);
                tr("[\"t\",%d]", kind);
                RKRawDataRecorderSetRawDataType(engine, kind == 1 ? RKRawDataTypeFromTransceiver : RKRawDataTypeAfterMatchedFilter);
                tr("[\"T\",%d]", kind);
            }
            // do not lap the recorder
            for (m = 0; fed + 1 - (long)(engine->tic - 1) > far - (fed - used) && m < 20000; m++) { if (used < fed && !u[used]) break; usleep(10000); }
            if (m == 20000) { tr("[\"stuck\"]"); goto done; }
            if (fed + 1 - (long)(engine->tic - 1) <= far) {
                RKPulse *q = RKGetPulseFromBuffer(pulses, fed % D);
                q->header.s = RKPulseStatusVacant; was[fed % D] = 0;
                RKInt16C *x;
                memset(&q->header.i, 0, 8);
                fill(&q->header, id, configIndex);
                q->header.downSampledGateCount = 0;
                for (p = 0; p < 2; p++) { x = RKGetInt16CDataFromPulse(q, p); for (g = 0; g < gates(id); g++) { x[g].i = ival(id, p, g, 0); x[g].q = ival(id, p, g, 1); } }
                idOf[fed % D] = id;
                tr("[\"P\",%d,%d,%ld]", (int)configIndex, (int)configs[configIndex].i, msOf[id]);
                // the compressed data may be there before they are filtered
                if (vs_randn(2)) { for (p = 0; p < 2; p++) { RKComplex *y = RKGetComplexDataFromPulse(q, p); for (g = 0; g < down(id); g++) y[g].i = y[g].q = -1.0f; } q->header.downSampledGateCount = down(id); }
                q->header.s = RKPulseStatusHasIQData | RKPulseStatusHasPosition | (vs_randn(2) ? RKPulseStatusProcessed | (vs_randn(2) ? RKPulseStatusRingProcessed : 0) : 0);
                cAt[fed] = cn;
                fed++; id++;
                pulseIndex = fed % D;
            }
            // pulses are done with in almost any order
            while (fed - used >= lag || (fed > used && vs_randn(3) == 0)) {
                long j = used + (vs_randn(2) ? 0 : vs_randn(fed - used));
                while (u[j]) j--;
                u[j] = true;
                RKPulse *q = RKGetPulseFromBuffer(pulses, j % D);
                long z = base + j;
                for (p = 0; p < 2; p++) {
                    RKComplex *y = RKGetComplexDataFromPulse(q, p);
                    for (g = 0; g < down(z); g++) { y[g].i = fval(z, p, g, 0); y[g].q = fval(z, p, g, 1); }
                }
                q->header.downSampledGateCount = down(z);
                q->header.s |= RKPulseStatusProcessed | RKPulseStatusRingProcessed;
                tr("[\"U\",%ld]", j + 1);
                q->header.s |= RKPulseStatusUsedForMoments;
                while (used < fed && u[used]) used++;
            }
            if (pace == 0 && vs_randn(4) == 0) usleep(vs_randn(40000));
            if (pace == 1) usleep(10000 + vs_randn(20000));
            if (pace == 2 && vs_randn(20) == 0) vs_yield();
            observer();
            if (used == fed && vs_randn(12) == 0) {
                for (m = 0; (long)engine->tic - 1 != fed && m < 20000; m++) usleep(10000);
                observer();
                tr("[\"Q\"]");
            }
        }
        if (vs_randn(2)) usleep(vs_randn(100000));
        observer();
        tr("[\"K\",%ld]", (long)engine->tic - 1);
        tr("[\"s\"]");
        RKRawDataRecorderStop(engine);
        observer();
        tr("[\"S\"]");
        tr("[\"F\",%d]", count(root));
        if (engine->state != (RKEngineStateAllocated | RKEngineStateProperlyWired)) tr("[\"state\",%d]", (int)engine->state);
    }
done:
    usleep(1000000);
    tr("[\"end\",%d,%lu,%lu,%d,%d]", vs_alive(), vs_switches(), vs_blocks(), files, marked);
    tr_close();
    _exit(0);
}
