// C10: the health engine with several sources that report, stall, fall silent and resume under seeded schedules.
// usage: health <seed> <out> <root> [fine]
#include <RadarKit.h>
#include <ctype.h>
#include <math.h>
#include "vsched.h"

#define MAXN 5
static int N, D, fine, Q[MAXN];                 // nodes in use, ring depth
static int where[MAXN];                         // index of the node
static RKRadar *radar;
static uint32_t salt;
static int gpsNode = -1, ignoreH, ignoreP;
typedef struct { int kind, e[4], v[4]; int size; } Report;
static Report *reports[MAXN];
static volatile int going = 1, silent[MAXN];
static uint64_t sums[64];
static uint32_t seen = 0;
static long count = 0, lastTime = 0;

static long ms(void) { return (long)(vs_now() * 1000.0); }
static void giveup(const char *why) { tr("[\"end\",\"%s\"]", why); tr_close(); exit(0); }

// ---- reports. as sent; or as they are to appear, without blanks
static const char *quoted[] = {"\"True\"", "\"false\"", "\"TRUE\"", "true", "false"}, *revised[] = {"true", "false", "true", "true", "false"};
static int compose(char *s, int j, int q, int sent, int old, int hov, int pov) {
    Report *r = &reports[j][q];
    char *o = s; const char *b = sent ? " " : "", *c = sent ? ", " : ",";
    int k, e[4];
    for (k = 0; k < 4; k++) e[k] = old ? -3 : r->e[k];
    s += sprintf(s, "{\"n%d\":{\"Value\":%d,%s\"Enum\":%d}", j, q, b, e[0]);
    if (r->kind & 1) s += sprintf(s, "%s\"n%dflag\":{\"Value\":%s,%s\"Enum\":%d}", c, j, sent ? quoted[r->v[0] % 5] : revised[r->v[0] % 5], b, e[1]);
    if (r->kind & 2) s += sprintf(s, "%s\"n%drate\":\"%d Hz\"%s\"n%dnoise\":[%d,-%d]", c, j, r->v[1], c, j, r->v[2], r->v[0]);
    if (r->kind & 4) s += sprintf(s, "%s\"n%dstate\":{\"Value\":\"on\",%s\"Enum\":%d}", c, j, b, e[2]);
    if (r->size) { s += sprintf(s, "%s\"n%dpad\":\"", c, j); for (k = 0; k < r->size; k++) *s++ = 'a' + k % 26; *s++ = '"'; }
    if (j == gpsNode) {
        int he = old ? -3 : r->e[3], pe = old ? -3 : r->e[2];
        if (hov) he = 3;
        if (pov) pe = 3;
        const char *f = r->kind & 8 ? "\"" : "";
        s += sprintf(s, "%s\"GPS Heading\":{\"Value\":%s%d.0%s%s,%s\"Enum\":%d}", c, f, r->v[1], *f ? " deg" : "", f, b, he);
        s += sprintf(s, "%s\"GPS Latitude\":{\"Value\":%s%.7f%s,%s\"Enum\":%d}", c, f, 35.0 + 1e-5 * r->v[2], f, b, pe);
        s += sprintf(s, "%s\"GPS Longitude\":{\"Value\":%s%.7f%s,%s\"Enum\":%d}", c, f, -97.0 + 1e-5 * r->v[3], f, b, pe);
    }
    s += sprintf(s, "}");
    if (sent && r->kind & 16) s += sprintf(s, "\r\n");
    return (int)(s - o);
}

// ---- what is in a record
static const char *jp; static int jok;
static void js(void) { while (*jp == ' ' || *jp == '\t' || *jp == '\r' || *jp == '\n') jp++; }
static void jv(char **o);
static void jstr(char **o) {
    if (*jp != '"') { jok = 0; return; }
    do { *(*o)++ = *jp++; } while (*jp && *jp != '"' && *jp != '\n' && *jp != '\\');
    if (*jp != '"') { jok = 0; return; }
    *(*o)++ = *jp++;
}
static void jnum(char **o) {
    const char *b = jp;
    if (*jp == '-') jp++;
    if (!isdigit(*jp) || (*jp == '0' && isdigit(jp[1]))) { jok = 0; return; }
    while (isdigit(*jp)) jp++;
    if (*jp == '.') { jp++; if (!isdigit(*jp)) { jok = 0; return; } while (isdigit(*jp)) jp++; }
    memcpy(*o, b, jp - b); *o += jp - b;
}
static void jv(char **o) {
    js();
    if (*jp == '{' || *jp == '[') {
        char open = *jp, close = open == '{' ? '}' : ']';
        *(*o)++ = *jp++; js();
        if (*jp != close) for (;;) {
            if (open == '{') { js(); jstr(o); js(); if (!jok || *jp != ':') { jok = 0; return; } *(*o)++ = *jp++; }
            jv(o); js();
            if (!jok) return;
            if (*jp == ',') { *(*o)++ = *jp++; continue; }
            break;
        }
        if (*jp != close) { jok = 0; return; }
        *(*o)++ = *jp++;
    } else if (*jp == '"') jstr(o);
    else if (!strncmp(jp, "true", 4)) { memcpy(*o, jp, 4); *o += 4; jp += 4; }
    else if (!strncmp(jp, "false", 5)) { memcpy(*o, jp, 5); *o += 5; jp += 5; }
    else jnum(o);
    js();
}
static char member[MAXN][8192], rest[8192], canon[16384], expect[8192], text[8192];
static void record(uint32_t k) {
    char *o, *e; int j, hov = 0, pov = 0; double h = -1, lat = 35, lon = -97; long lt = -1;
    char line[4000], *s = line;
    strcpy(text, radar->healths[k].string);
    jp = text; jok = 1; o = canon; jv(&o); *o = '\0';
    if (!jok || *jp || canon[0] != '{' || strlen(radar->healths[k].string) >= RKMaximumStringLength) { tr("[\"bad\",%ld,%d,\"not an object\",%d]", ms(), (int)k, (int)(jp - text)); fprintf(stderr, "%s\n", text); return; }
    for (j = 0; j < N; j++) strcpy(member[j], "{");
    rest[0] = '\0';
    for (o = canon + 1; *o && *o != '}'; o = e + (*e == ',')) {         // members of the object
        int depth = 0, q = 0;
        for (e = o; *e; e++) { if (*e == '"') q = !q; if (!q) { if (*e == '{' || *e == '[') depth++; if (*e == '}' || *e == ']') { if (depth == 0) break; depth--; } if (*e == ',' && depth == 0) break; } }
        int len = (int)(e - o);
        int n = o[1] == 'n' && isdigit(o[2]) ? o[2] - '0' : !strncmp(o, "\"GPS Heading\"", 13) || !strncmp(o, "\"GPS Latitude\"", 14) || !strncmp(o, "\"GPS Longitude\"", 15) ? gpsNode : -1;
        if (n >= N) n = -1;
        if (n >= 0) { if (member[n][1]) strcat(member[n], ","); strncat(member[n], o, len); }
        else if (!strncmp(o, "\"Heading Override\"", 18)) hov++;
        else if (!strncmp(o, "\"GPS Override\"", 14)) pov++;
        else if (sscanf(o, "\"Sys Heading\":{\"Value\":\"%lf", &h) == 1) ;
        else if (sscanf(o, "\"Sys Latitude\":{\"Value\":\"%lf", &lat) == 1) ;
        else if (sscanf(o, "\"Sys Longitude\":{\"Value\":\"%lf", &lon) == 1) ;
        else if (sscanf(o, "\"Log Time\":%ld", &lt) == 1) ;
        else if (!strncmp(o, "\"LocationFromDescriptor\":true", 29)) ;
        else { strncat(rest, o, len > 60 ? 60 : len); }
    }
    for (j = 0; j < N; j++) {
        if (member[j][1] == '\0') { s += sprintf(s, "%s[]", j ? "," : ""); continue; }
        strcat(member[j], "}");
        int q = -1; char *v = strstr(member[j], "\"Value\":"); char name[20];
        sprintf(name, "{\"n%d\":", j);
        if (!strncmp(member[j], name, strlen(name)) && v) q = atoi(v + 8);
        if (q < 1 || q > Q[j]) { s += sprintf(s, "%s[-1,false,false]", j ? "," : ""); continue; }
        int a, b;
        compose(expect, j, q, 0, 0, hov, pov); a = !strcmp(expect, member[j]);
        compose(expect, j, q, 0, 1, hov, pov); b = !strcmp(expect, member[j]);
        if (!a && !b) fprintf(stderr, "%s\n%s\n", expect, member[j]);
        s += sprintf(s, "%s[%d,%s,%s]", j ? "," : "", q, a ? "true" : "false", b ? "true" : "false");
    }
    for (o = rest; *o; o++) if (*o == '"' || *o == '\\') *o = '\'';
    tr("[\"o\",%ld,%d,%ld,[%s],%d,%d,%d,%d,%d,\"%s\"]", ms(), (int)k, lt - (long)vs_epoch, line, hov, pov, hov ? (int)lround(h) : 0, pov ? (int)lround((lat - 35.0) * 1e5) : 0, pov ? (int)lround((lon + 97.0) * 1e5) : 0, rest);
}
static uint64_t sum(uint32_t k) { uint64_t h = 1469598103ull; for (char *c = radar->healths[k].string; *c; c++) h = (h ^ (uint8_t)*c) * 1099511628211ull; return h ^ radar->healths[k].flag; }
static void look(void) {
    while (seen != radar->healthIndex) {
        if (!(radar->healths[seen].flag & RKHealthFlagReady)) tr("[\"bad\",%ld,%d,\"not ready\",0]", ms(), (int)seen);
        record(seen);
        sums[seen] = sum(seen); count++; lastTime = ms();
        seen = RKNextModuloS(seen, D);
        if (seen == radar->healthIndex && !fine && radar->healths[seen].flag != RKHealthFlagVacant) tr("[\"bad\",%ld,%d,\"next not vacant\",0]", ms(), (int)seen);
    }
    for (int k = 2; k < D - 2 && k < count; k++) { int x = (seen + D - k) % D; if (sum(x) != sums[x]) { tr("[\"bad\",%ld,%d,\"changed\",0]", ms(), x); sums[x] = sum(x); } }
}

static void report(int j, int stall) {
    char buf[8192];
    int q = ++Q[j], k;
    Report *r = &reports[j][q];
    memset(r, 0, sizeof(*r));
    r->kind = vs_randn(32);
    static const int es[] = {0, 0, 0, 0, 0, 1, -1, -2, 2, 3, 4, -3};
    for (k = 0; k < 4; k++) { r->e[k] = es[vs_randn(12)]; r->v[k] = 1 + vs_randn(40); }
    if (vs_randn(12) == 0) r->size = vs_randn(vs_randn(4) ? 200 : 600);
    int hok = 0, pok = 0;
    if (j == gpsNode) {
        static int where = 0; int still = vs_randn(8);
        if (vs_randn(25) == 0) where = vs_randn(4);
        r->v[1] = 10 + 5 * where + (int)vs_randn(2 + (still == 0) * 4); r->v[2] = 100 + 20 * where + (int)vs_randn(still == 0 ? 8 : 3); r->v[3] = 50 + (int)vs_randn(still == 1 ? 8 : 3);
        if (vs_randn(6)) r->e[3] = 0;
        if (vs_randn(6)) r->e[2] = 0;
        hok = r->e[3] == 0 && !ignoreH && !ignoreP; pok = r->e[2] == 0 && !ignoreP;
    }
    look();
    tr("[\"b\",%ld,%d,%s,%d,%s,%d,%d]", ms(), j + 1, hok ? "true" : "false", r->v[1], pok ? "true" : "false", r->v[2], r->v[3]);
    RKHealth *h = RKGetVacantHealth(radar, where[j]);
    k = (int)(h - radar->healthNodes[where[j]].healths);
    look();
    tr("[\"v\",%ld,%d,%d]", ms(), j + 1, k);
    int n = compose(buf, j, q, 1, 0, 0, 0), a = vs_randn(n);
    for (int m = 0; m < a; m++) h->string[m] = buf[m];
    h->string[a] = '\0';
    if (stall) usleep(stall); else if (vs_randn(3) == 0) usleep(vs_randn(60000)); else if (vs_randn(2)) vs_yield();
    strcpy(h->string + a, buf + a);
    look();
    tr("[\"c\",%ld,%d]", ms(), j + 1);
    RKSetHealthReady(radar, h);
    look();
    tr("[\"d\",%ld,%d]", ms(), j + 1);
}
static uint32_t mark[MAXN];
static int base[MAXN], limit[MAXN], pace[MAXN], fast;
static void *source(void *in) {
    int j = (int)(long)in;
    if (vs_randn(2) && !fast) usleep(vs_randn(1500000));
    while (going && Q[j] < limit[j] - 20) {
        if (silent[j]) { usleep(50000); continue; }
        // not so many reports in a round that the ring of the source is lapped
        if (radar->healthIndex != mark[j]) { mark[j] = radar->healthIndex; base[j] = Q[j]; }
        if (Q[j] - base[j] >= D - 4) { usleep(10000); continue; }
        if (fast) { report(j, 0); usleep(pace[j] / 2 + vs_randn(pace[j])); continue; }
        int stall = vs_randn(15) == 0 ? (int)vs_randn(2500000) : 0;
        report(j, j == 0 && stall > 1000000 ? 300000 : stall);
        usleep(pace[j] / 2 + vs_randn(pace[j]));
        if (j && vs_randn(20) == 0) usleep(1000000 + vs_randn(4000000));
        if (vs_randn(20) == 0 && !vs_randn(2)) pace[j] = 100000 + vs_randn(j ? 2500000 : 900000);
    }
    return NULL;
}
int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    int j, k;
    fine = argc > 4 && !strcmp(argv[4], "fine");
    vs_conf c;
    memset(&c, 0, sizeof(c));
    vs_conf_from_seed(&c, seed);
    tr_open(argv[2]);
    RKSetWantScreenOutput(false);
    RKSetRootDataFolder(argv[3]);
    RKSetUseDailyLog(false);
    vs_giveup = giveup;
    c.maxTime = 4000;
    // many short turns, among which the clock often moves on
    fast = fine && seed % 2;
    if (fast) { static const int pre[] = {5, 12, 40, 100}; c.preempt = pre[seed / 2 % 4]; c.jump = 100 + 100 * (seed / 8 % 3); }
    vs_start(&c);
    salt = vs_randn(1000);
    N = 1 + (fast ? vs_randn(4) == 0 : vs_randn(MAXN)); D = fast ? 12 : 12 + vs_randn(20);
    radar = calloc(1, sizeof(RKRadar));
    RKRadarDesc *desc = &radar->desc;
    desc->healthNodeCount = MAXN + 1 + vs_randn(RKHealthNodeCount - MAXN);
    desc->healthBufferDepth = D;
    ignoreH = vs_randn(8) == 0; ignoreP = vs_randn(10) == 0;
    desc->initFlags = (ignoreH ? RKInitFlagIgnoreHeading : 0) | (ignoreP ? RKInitFlagIgnoreGPS : 0);
    int h0 = 10 + vs_randn(20), lat0 = 100 + vs_randn(30), lon0 = 50 + vs_randn(5);
    desc->heading = h0; desc->latitude = 35.0 + 1e-5 * lat0; desc->longitude = -97.0 + 1e-5 * lon0;
    radar->healthNodes = calloc(RKHealthNodeCount, sizeof(RKNodalHealth));
    for (k = 0; k < RKHealthNodeCount; k++) radar->healthNodes[k].healths = calloc(D, sizeof(RKHealth));
    radar->healths = calloc(D, sizeof(RKHealth));
    radar->state = RKRadarStateLive;
    int used[RKHealthNodeCount] = {1};
    for (j = 1; j < N; j++) { do { k = 1 + vs_randn(desc->healthNodeCount - 1); } while (used[k]); used[k] = 1; where[j] = k; }
    if (N > 1 && vs_randn(3)) gpsNode = 1 + vs_randn(N - 1);
    for (j = 0; j < N; j++) { limit[j] = 300; reports[j] = calloc(limit[j] + 1, sizeof(Report)); pace[j] = j ? 100000 + vs_randn(vs_randn(2) ? 2500000 : 500000) : 150000 + vs_randn(900000); }
    if (fast) for (j = 0; j < N; j++) pace[j] = 20000 + vs_randn(20000);
    tr("{\"n\":%d,\"d\":%d,\"h\":%d,\"lat\":%d,\"lon\":%d,\"fine\":%s}", N, D, h0, lat0, lon0, fine ? "true" : "false");
    RKHealthEngine *engine = radar->healthEngine = RKHealthEngineInit();
    RKHealthEngineSetEssentials(engine, desc, radar->healthNodes, radar->healths, &radar->healthIndex);
    int early = vs_randn(2);
    pthread_t tid[MAXN];
    if (early) RKHealthEngineStart(engine);
    for (j = 0; j < N; j++) pthread_create(&tid[j], NULL, source, (void *)(long)j);
    if (!early) RKHealthEngineStart(engine);
    double until = vs_now() + (fast ? 1.5 + 0.1 * vs_randn(15) : fine ? 3 + vs_randn(7) : 10 + vs_randn(20));
    int target = fine ? 6 : 8 + vs_randn(14);
    while (vs_now() < until || count < target) {
        if (Q[0] >= limit[0] - 20 || vs_now() > until + 60) break;
        usleep(20000 + vs_randn(60000));
        look();
        if (vs_randn(60) == 0) { j = vs_randn(N); if (j && !fast) silent[j] = !silent[j]; }
    }
    going = 0;
    for (j = 0; j < N; j++) pthread_join(tid[j], NULL);
    // all the others are silent now: records keep coming with those of the first
    long before = count; int stuck = 0;
    for (k = 0; k < 4; k++) {
        before = count;
        report(0, 0);
        for (j = 0; j < 400 && count == before; j++) { usleep(25000); look(); if (j % 100 == 99) report(0, 0); }
        if (count == before) stuck = 1;
    }
    look();
    RKHealthEngineStop(engine);
    look();
    tr("[\"end\",\"%s\"]", stuck ? "no record" : "ok");
    tr_close();
    return 0;
}
