// C08: drives the real file manager in a scratch folder, as a user that owns nothing else, with seeded files, sizes, dates, restarts and threads.
// usage: files <seed> <out> <root>
#include <RadarKit.h>
#include "vsched.h"
#include <dirent.h>
#include <sys/stat.h>
#include <limits.h>

#define NF 4000
static struct { char path[600]; int k, age, open; bool there, ours, told; long t, size; } fs[NF];
static int nf = 0;
static char root[1000], absroot[PATH_MAX];
static bool relative;
static RKFileManager *engine;
static RKRadarDesc desc;
static long unit = 1;
static const char *folder[] = {"", RKDataFolderIQ, RKDataFolderMoment, RKDataFolderHealth, RKLogFolder};
static const long base = 1583000000;          // 2020-02-29 18:13:20
static int idOf(const char *path) {
    char want[3000];
    for (int k = nf - 1; k >= 0; k--) {
        snprintf(want, sizeof(want), "%s/%s", root, fs[k].path);
        if (!strcmp(path, relative ? fs[k].path : want) && fs[k].there) return k;
    }
    return -1;
}
// does the parent of a path really lie in the scratch folder
static bool inside(const char *path) {
    char dir[4000], real[PATH_MAX], *s;
    snprintf(dir, sizeof(dir), "%s", path);
    if ((s = strrchr(dir, '/')) == NULL) strcpy(dir, "."); else *s = 0;
    return realpath(dir, real) && !strncmp(real, absroot, strlen(absroot)) && (real[strlen(absroot)] == '/' || !real[strlen(absroot)]);
}
int __real_remove(const char *);
int __real_rmdir(const char *);
static int removed(const char *path) {
    int k = idOf(path);
    struct stat st;
    // one that is gone already has nothing to remove
    if (k < 0 && stat(path, &st) && inside(path)) {
        char want[3000];
        for (k = nf - 1; k >= 0; k--) { snprintf(want, sizeof(want), "%s/%s", root, fs[k].path); if (!strcmp(path, relative ? fs[k].path : want)) break; }
        tr("[\"D\",%d]", k + 1);
        errno = ENOENT;
        return -1;
    }
    tr("[\"D\",%d]", k + 1);
    if (k < 0 || !inside(path)) { errno = EPERM; return -1; }
    fs[k].there = false;
    return __real_remove(path);
}
int __wrap_remove(const char *path) { return removed(path); }
int __wrap_unlink(const char *path) { return removed(path); }
int __wrap_rmdir(const char *path) {
    int k = 0, day = 0, r;
    if (!inside(path)) { tr("[\"F\",-1,-1]"); errno = EPERM; return -1; }
    r = __real_rmdir(path);
    if (r == 0) {
        const char *s = path;
        if (!relative) s += strlen(root) + 1;
        for (int j = 1; j <= 3; j++) { size_t n = strlen(folder[j]); if (!strncmp(s, folder[j], n) && s[n] == '/') { k = j; day = atoi(s + n + 1); } }
        tr("[\"F\",%d,%d]", k, day);
    }
    return r;
}
int __wrap_unlinkat(int d, const char *n, int f) { (void)d; (void)n; (void)f; tr("[\"unlinkat\"]"); return -1; }
FILE *__wrap_popen(const char *c, const char *t) { (void)c; (void)t; tr("[\"popen\"]"); return NULL; }
int __wrap_system(const char *c) { (void)c; tr("[\"system\"]"); return -1; }
int __wrap_rename(const char *a, const char *b) { (void)a; (void)b; tr("[\"rename\"]"); return -1; }
// the age of logs
static void fake(const char *path, struct stat *st) {
    int k = idOf(path);
    if (k < 0 && strstr(path, RKLogFolder "/")) st->st_ctime = st->st_mtime = 1;                   // a folder, as old as can be
    if (k >= 0 && fs[k].k == 4) st->st_ctime = st->st_mtime = (time_t)(vs_epoch + vs_now()) - fs[k].age * 86400L - 43200;
}
int __real_lstat(const char *, struct stat *);
int __wrap_lstat(const char *path, struct stat *st) { int r = __real_lstat(path, st); if (r == 0) fake(path, st); return r; }
int __real_stat(const char *, struct stat *);
int __wrap_stat(const char *path, struct stat *st) { int r = __real_stat(path, st); if (r == 0) fake(path, st); return r; }

static void dayOf(long t, char *s) { time_t x = base + t; struct tm tm; gmtime_r(&x, &tm); strftime(s, 20, "%Y%m%d", &tm); }
static void mkdirs(const char *path) {        // of its parents
    char s[3000];
    snprintf(s, sizeof(s), "%s/%s", root, path);
    for (char *c = s + strlen(root) + 1; (c = strchr(c, '/')); c++) { *c = 0; mkdir(s, 0755); *c = '/'; }
}
static bool bulk;                              // several at once
static int put(int k, const char *path, long t, int day, bool ours, long size) {
    char s[3000];
    struct stat st;
    snprintf(s, sizeof(s), "%s/%s", root, path);
    if (nf >= NF || __real_lstat(s, &st) == 0) return -1;
    mkdirs(path);
    int fd = open(s, O_CREAT | O_WRONLY | O_EXCL, 0644);
    if (fd < 0) return -1;
    if (ftruncate(fd, size * unit)) { close(fd); return -1; }
    close(fd);
    strcpy(fs[nf].path, path);
    fs[nf].k = k; fs[nf].t = t; fs[nf].size = size; fs[nf].there = true; fs[nf].ours = ours; fs[nf].age = t; fs[nf].told = false;
    nf++;
    if (!bulk) tr("[\"C\",%d,%d,%d,%ld,%s,%ld]", nf, k, day, t, ours ? "true" : "false", size);
    return nf - 1;
}
static int maxSize;
static long size1(void) { return vs_randn(12) == 0 ? 0 : vs_randn(15) == 0 ? maxSize * 3 : 1 + vs_randn(maxSize); }
// a file as the radar makes them
static int ours(int k, long t) {
    static const char *prefix[] = {"XX", "PX-1000", "a_b-c", "K20"}, *end[] = {"", ".rkr", "-E1.0.rkc", "-E0.5-Z.nc", "-A123.4-V.nc", ".tar.xz", "-N1"};
    char day[20], name[600], hms[20];
    time_t x;
    struct tm tm;
    if (vs_randn(3) == 0) t -= ((base + t) % 60);
    x = base + t;
    gmtime_r(&x, &tm);
    dayOf(t, day);
    strftime(hms, sizeof(hms), (base + t) % 60 == 0 && vs_randn(2) ? "%H%M" : "%H%M%S", &tm);
    sprintf(name, "%s/%s/%s-%s-%s%s", folder[k], day, prefix[vs_randn(4)], day, hms, k == 3 ? ".json" : end[vs_randn(7)]);
    return put(k, name, t, atoi(day), true, size1());
}
// something else
static int foreign(long t) {
    char day[20], name[600];
    int k = 1 + vs_randn(3), d = 0, kind = vs_randn(13);
    dayOf(t, day);
    switch (kind) {
        case 0: sprintf(name, "%s/%s/readme.txt", folder[k], day); d = atoi(day); break;
        case 1: sprintf(name, "%s/%s/.XX-%s-010203.rkr", folder[k], day, day); d = atoi(day); break;
        case 2: sprintf(name, "%s/notes/XX-%s-010203.rkr", folder[k], day); break;
        case 3: sprintf(name, "%s/%s/keep/XX-%s-010203.rkr", folder[k], day, day); d = atoi(day); break;
        case 4: sprintf(name, "%s2/%s/XX-%s-010203.rkr", folder[k], day, day); break;
        case 5: sprintf(name, "%s/XX-%s-010203.rkr", folder[k], day); break;
        case 6: sprintf(name, "%s/%s.bak/XX-%s-010203.rkr", folder[k], day, day); break;
        case 7: sprintf(name, "%s/%s9/XX-%s-010203.rkr", folder[k], day, day); break;
        case 8: sprintf(name, "%s/%.7s/XX-%s-010203.rkr", folder[k], day, day); break;
        case 9: sprintf(name, "%s/XX-%s-010203.rkr", vs_randn(2) ? "other" : day, day); break;
        case 10: sprintf(name, "%s/%s/XX-%s.rkr", folder[k], day, day); d = atoi(day); break;
        case 11: sprintf(name, "%s/%s/notes-%.6s-1-%d.txt", folder[k], day, day, (int)(t % 97)); d = atoi(day); break;
        default: sprintf(name, "%s/.%s/XX-%s-010203.rkr", folder[k], day, day); break;
    }
    return put(d ? k : 0, name, t, d, false, size1());
}
static int log1(void) {
    char name[600];
    int kind = vs_randn(8), age = vs_randn(12);
    bool o = kind > 1;
    sprintf(name, kind == 0 ? "%s/.trxd-%d.log" : kind == 1 ? "%s/old/trxd-%d.log" : "%s/trxd-%d.log", folder[4], 20200101 + nf);
    return put(4, name, age, 0, o, 1);
}
static void add(int me, int f, int k) {
    if (strstr(fs[f].path, "/.")) return;             // nobody reports hidden ones
    char s[3000];
    snprintf(s, sizeof(s), "%s/%s", root, fs[f].path);
    tr("[\"a\",%d,%d,%d]", me, f + 1, k);
    fs[f].open++;
    int r = RKFileManagerAddFile(engine, relative ? fs[f].path : s, k == 1 ? RKFileTypeIQ : k == 2 ? RKFileTypeMoment : k == 3 ? RKFileTypeHealth : RKFileTypeLog);
    fs[f].open--;
    if (r == RKResultSuccess) fs[f].told = true;
    tr("[\"A\",%d,%d]", me, r == RKResultSuccess ? 0 : 1);
}
static void listing(void) {
    static char b[NF * 6];
    char s[3000];
    int n = sprintf(b, "[\"L\",[");
    struct stat st;
    bool first = true;
    for (int k = 0; k < nf; k++) {
        snprintf(s, sizeof(s), "%s/%s", root, fs[k].path);
        if (__real_lstat(s, &st) == 0) { n += sprintf(b + n, "%s%d", first ? "" : ",", k + 1); first = false; }
    }
    sprintf(b + n, "]]");
    tr("%s", b);
}
static void rest(void) {
    int k, m;
    for (m = 0; m < 3000; m++) {
        for (k = 0; k < engine->workerCount && (engine->workers[k].usage <= engine->workers[k].limit); k++) ;
        if (k == engine->workerCount) break;
        usleep(100000);
        if (m > 200) { for (k = 0; k < engine->workerCount && engine->workers[k].usage == 0; k++) ; if (k == engine->workerCount) break; }
    }
    usleep(2500000);
    listing();
}
static long now;                              // time of the radar
static int pick(int k) { if (nf == 0) return -1; for (int m = 0; m < 30; m++) { int f = vs_randn(4) ? nf - 1 - vs_randn(nf < 8 ? nf : 8) : vs_randn(nf); if (fs[f].there && fs[f].open == 0 && (k == 0 || fs[f].k == k)) return f; } return -1; }
static int spread;
static void one(int me) {
    int k = vs_randn(6), f;
    switch (vs_randn(24)) {
        case 0: foreign(now); return;
        case 1: if ((f = pick(0)) >= 0) add(me, f, 1 + vs_randn(3)); return;        // perhaps not the right place
        case 2: if ((f = pick(0)) >= 0 && fs[f].k && fs[f].k < 4) add(me, f, fs[f].k); return;
        case 3: if ((f = pick(0)) >= 0 && fs[f].k != 4) { long n = size1(); char s[3000]; snprintf(s, sizeof(s), "%s/%s", root, fs[f].path); if (truncate(s, n * unit) == 0) { tr("[\"w\",%d,%ld]", f + 1, n); } if (vs_randn(2) && fs[f].k) add(me, f, fs[f].k); } return;
        case 4: if ((f = pick(0)) >= 0 && fs[f].ours && vs_randn(3) == 0) { char s[3000]; snprintf(s, sizeof(s), "%s/%s", root, fs[f].path); fs[f].there = false; tr("[\"v\",%d]", f + 1); __real_remove(s); } return;
        case 5: log1(); return;
        case 6: ours(1 + vs_randn(3), now - vs_randn(200000)); return;              // never reported
        default: break;
    }
    now += vs_randn(spread);
    k = k < 3 ? 1 : k < 5 ? 2 : 3;
    f = ours(k, vs_randn(8) ? now : now - vs_randn(90000));
    if (f >= 0) { if (vs_randn(4) == 0) usleep(vs_randn(30000)); add(me, f, k); }
}
static int left = 0, pace;
static volatile int busy = 0;
static void *adder(void *in) {
    int me = (int)(long)in;
    while (left > 0) { left--; one(me); if (vs_randn(4) >= pace) usleep(vs_randn(pace == 3 ? 2000000 : 300000)); }
    busy--;
    return NULL;
}
static void ended(const char *why) { tr("[\"%s\"]", why); }

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    vs_conf c;
    int k, m, j;
    vs_conf_from_seed(&c, seed);
    vs_giveup = ended;
    setenv("TZ", "XST6XDT,M3.2.0,M11.1.0", 1); tzset();
    tr_open(argv[2]);
    RKSetWantScreenOutput(false);
    strcpy(root, argv[3]);
    // as somebody who owns nothing else, where that is possible; removals go through the stand-ins above in any case
    if (chown(root, 65534, 65534) == 0 && (setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534))) return 45;
    if (chdir(root) || !realpath(root, absroot)) return 45;
    c.maxTime = 1e7;
    vs_start(&c);
    relative = vs_randn(5) == 0;
    if (vs_randn(5) == 0) unit = 1L << 31;
    maxSize = 1 + vs_randn(60);
    spread = vs_randn(3) ? 100 : vs_randn(2) ? 4000 : 60000;
    now = vs_randn(2) ? vs_randn(100000) : 645000 + vs_randn(5000);      // the night the clock changes
    long total = 14L * (1 + vs_randn(100)), own[3];
    for (k = 0; k < 3; k++) own[k] = vs_randn(3) ? 0 : 1 + vs_randn(600);
    if (unit == 1) total += vs_randn(14);
    int many = vs_randn(12) == 0, age = 1 + vs_randn(10);
    if (many) { maxSize = 2; total = 14 * 90; own[0] = vs_randn(10) ? 1480 + vs_randn(200) : 600; }
    tr("{\"total\":%ld,\"own\":[%ld,%ld,%ld],\"age\":%d}", total, own[0], own[1], own[2], age);
    engine = RKFileManagerInit();
    if (vs_randn(3)) RKFileManagerSetVerbose(engine, vs_randn(4));
    if (relative) ;
    else if (vs_randn(2)) RKFileManagerSetPathToMonitor(engine, root);
    else { strcpy(desc.dataPath, root); RKFileManagerSetEssentials(engine, &desc); if (vs_randn(2)) RKFileManagerSetPathToMonitor(engine, "/nowhere"); }
    RKFileManagerSetDiskUsageLimit(engine, total * unit);
    RKFileManagerSetMaximumLogAgeInDays(engine, age);
    RKFileManagerSetRawDataLimit(engine, own[0] * unit);
    RKFileManagerSetMomentDataLimit(engine, own[1] * unit);
    RKFileManagerSetHealthDataLimit(engine, own[2] * unit);
    int rounds = 1 + vs_randn(3), files = 10 + vs_randn(40);
    // what was there before
    if (many) {
        static char b[NF * 32];
        bulk = true;
        k = 980 + vs_randn(60);
        while (nf < k) ours(1, now += 1 + vs_randn(20));
        m = sprintf(b, "[\"B\",[");
        for (k = 0; k < nf; k++) { char day[20]; dayOf(fs[k].t, day); m += sprintf(b + m, "%s[%ld,%d,%ld]", k ? "," : "", fs[k].t, atoi(day), fs[k].size); }
        sprintf(b + m, "]]");
        tr("%s", b);
        bulk = false;
    }
    k = vs_randn(3) ? vs_randn(30) : 0;
    for (m = 0; m < k; m++) { now += vs_randn(spread); ours(1 + vs_randn(3), now); if (vs_randn(6) == 0) foreign(now); if (vs_randn(20) == 0) log1(); }
    pace = vs_randn(4);
    for (j = 0; j < rounds; j++) {
        if (vs_randn(3) == 0) { m = vs_randn(4); for (k = 0; k < m; k++) { ours(1 + vs_randn(3), now += vs_randn(spread)); } }
        // some come before it is started
        if (vs_randn(4) == 0 && (k = pick(0)) >= 0) add(0, k, 1);
        tr("[\"s\"]");
        RKFileManagerStart(engine);
        tr("[\"S\"]");
        pthread_t tid[3];
        int n = vs_randn(4);
        left = files;
        busy = n;
        for (k = 0; k < n; k++) pthread_create(&tid[k], NULL, adder, (void *)(long)(k + 1));
        while (left > 0) { left--; one(0); if (vs_randn(4) >= pace) usleep(vs_randn(pace == 3 ? 2000000 : 300000)); if (n == 0 && vs_randn(15) == 0) rest(); }
        // it may be stopped while some are being added
        bool wait = vs_randn(2);
        if (wait) {
            for (k = 0; k < n; k++) pthread_join(tid[k], NULL);
            if (vs_randn(3) == 0) {
                bool old = true;
                for (m = 0; m < 20000 && (old || m < 700); m++) {
                    usleep(100000);
                    old = false;
                    for (k = 0; k < nf; k++) if (fs[k].k == 4 && fs[k].ours && fs[k].there && fs[k].age >= age) old = true;
                }
                rest();
                tr("[\"G\"]");
            } else if (vs_randn(4)) rest();
        }
        tr("[\"p\"]");
        RKFileManagerStop(engine);
        if (!wait) { left = 0; for (k = 0; k < n; k++) pthread_join(tid[k], NULL); }
        tr("[\"P\"]");
        listing();
        if (engine->state != (RKEngineStateAllocated | RKEngineStateProperlyWired)) tr("[\"state\",%d]", (int)engine->state);
    }
    RKFileManagerFree(engine);
    usleep(1000000);
    tr("[\"end\",%d,%lu,%lu,%d]", vs_alive(), vs_switches(), vs_blocks(), nf);
    tr_close();
    _exit(0);
}
