// C16: preference files written, read and looked up. usage: pref <seed> <out> <root>
#include <RadarKit.h>
#include <dirent.h>
#include <math.h>
#include "plain.h"

static char path[1024];
static char fev[8 * 1024 * 1024];
static size_t fl;
static FILE *fo;
static int fds(void) {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
static size_t codes(char *s, const char *x, size_t len) {
    size_t n = 0;
    s[n++] = '[';
    for (size_t k = 0; k < len; k++) n += (size_t)sprintf(s + n, "%s%d", k ? "," : "", (int)(unsigned char)x[k]);
    s[n++] = ']';
    s[n] = 0;
    return n;
}
static char ca[40000], cb[40000];
static char pool[10][200];
static const char *let = "abcdfghjklmoqrstuvwyzABCDFGHJKLM_-.";
static void put(const char *line, int last) {
    if (fl > 1) fev[fl++] = ',';
    fl += codes(fev + fl, line, strlen(line));
    fputs(line, fo);
    if (!(last && rndn(2))) fputs(rndn(4) ? "\n" : "\r\n", fo);
}
static char *blank(char *s) { for (int k = 1 + (rndn(4) ? 0 : rndn(4)); k; k--) *s++ = rndn(5) ? ' ' : '\t'; *s = 0; return s; }
static char *word(char *s, int n) { for (; n; n--) *s++ = let[rndn(35)]; *s = 0; return s; }
static char *num(char *s) {
    int d = 1 + rndn(4);
    if (!rndn(4)) *s++ = rndn(2) ? '-' : '+';
    if (!rndn(12)) d = 0;
    for (int k = 0; k < d; k++) *s++ = (char)('0' + rndn(10));
    if (!d || rndn(2)) { *s++ = '.'; for (int k = rndn(2); k >= 0; k--) *s++ = (char)('0' + rndn(10)); }
    *s = 0;
    return s;
}
static const char *bw[] = {"true", "false", "yes", "no", "True", "FALSE", "Yes", "NO", "trueish", "yesterday", "none", "nope", "falsehood"};
static char *value(char *s) {
    int k, n;
    char q;
    switch (rndn(8)) {
        case 0: break;
        case 1: case 2: for (k = rndn(6); k >= 0; k--) { s = num(s); if (k) s = blank(s); } break;
        case 3: for (k = rndn(5); k >= 0; k--) { s += sprintf(s, "%s", bw[rndn(13)]); if (k) s = blank(s); } break;
        case 4: case 5:
            for (k = 1 + rndn(3); k; k--) {
                q = rndn(2) ? '"' : '\'';
                *s++ = q;
                n = rndn(8) ? rndn(14) : rndn(400);
                for (; n; n--) *s++ = rndn(10) ? let[rndn(35)] : (rndn(3) ? ' ' : (rndn(3) ? (q == '"' ? '\'' : '"') : (rndn(6) ? ';' : '#')));
                if (rndn(8)) *s++ = q;
                s = blank(s);
            }
            break;
        case 6:     // a calibration, complete or not
            s = word(s, 1 + (rndn(6) ? rndn(8) : rndn(200)));
            s = blank(s);
            n = rndn(7) ? rndn(5) : rndn(12);
            s += sprintf(s, "%d", n);
            for (k = rndn(3) ? 4 * n : (int)rndn(40); k; k--) { s = blank(s); s = num(s); }
            break;
        default: word(s, rndn(10) ? 1 + rndn(20) : rndn(300)); s += strlen(s); break;
    }
    *s = 0;
    return s;
}
static void recase(char *s) { for (; *s; s++) if (!rndn(6)) *s ^= (((*s | 32) >= 'a' && (*s | 32) <= 'z') ? 32 : 0); }
static void line(char *s) {
    int w = (int)rndn(20);
    *s = 0;
    if (w == 0) { for (int k = rndn(3); k; k--) s = blank(s); return; }
    if (w == 1) { if (rndn(2)) s = blank(s); *s++ = '#'; *s = 0; if (rndn(2)) s = blank(s); strcpy(s, pool[rndn(10)]); s += strlen(s); s = blank(s); value(s); return; }
    if (w == 2) { s[0] = let[rndn(35)]; s[1] = 0; return; }
    if (!rndn(8)) s = blank(s);
    strcpy(s, pool[rndn(rndn(3) ? 3 : 10)]);
    recase(s);
    s += strlen(s);
    if (rndn(30)) s = blank(s);
    if (!rndn(12)) *s++ = '#';
    s = value(s);
    if (!rndn(6)) s = blank(s);
    if (!rndn(5)) { *s++ = '#'; *s = 0; value(s); }
}
static void write_file(void) {
    char s[8000];
    int n = rndn(8) ? rndn(40) : 100 + rndn(60), k;
    int many = !rndn(12);
    fo = fopen(path, "w");
    fl = 0;
    fev[fl++] = '[';
    if (many) for (k = 0; k < 990; k++) put(rndn(2) ? "" : "#", 0);
    for (k = 0; k < n; k++) {
        line(s);
        // the readers of numbers know exponents, infinities and hexadecimals
        put(s, k == n - 1);
    }
    fev[fl++] = ']';
    fev[fl] = 0;
    fclose(fo);
}
int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    int round, k, j, n, b;
    char kw[300], *z;
    RKPreference *p = NULL;
    (void)argc;
    rnd_seed(seed);
    RKSetWantScreenOutput(false);
    tr_open(argv[2]);
    tr("{\"seed\":%lu}", (unsigned long)(seed % 1000000));
    snprintf(path, sizeof(path), "%s/pref.conf", argv[3]);
    for (k = 0; k < 10; k++) {
        word(pool[k], k == 8 ? 126 + (int)rndn(3) : (k == 9 ? 150 : 2 + (int)rndn(6)));
        if (k == 1) { strcpy(pool[1], pool[0]); strcat(pool[1], "q"); }
    }
    for (round = 0; round < 6; round++) {
        if (round && !rndn(8)) {
            unlink(path);
            RKPreferenceUpdate(p);
            tr("[\"X\"]");
        } else {
            write_file();
            b = fds();
            if (!p) p = RKPreferenceInitWithFile(path); else RKPreferenceUpdate(p);
            tr("[\"F\",%s,%d]", fev, fds() - b);
        }
        n = 30 + (int)rndn(40);
        j = 0;
        for (k = 0; k < n; k++) {
            if (rndn(3)) j = (int)rndn(rndn(3) ? 3 : 10);
            strcpy(kw, pool[j]);
            if (!rndn(20)) word(kw, 3);
            if (j >= 8 && rndn(2)) kw[127] = 0;
            recase(kw);
            z = strdup(kw);
            codes(ca, z, strlen(z));
            switch (rndn(6)) {
                case 0: case 1: {
                    RKPreferenceObject *o = RKPreferenceFindKeyword(p, z);
                    if (!o) { tr("[\"K\",%s,0]", ca); break; }
                    char *t = malloc(20000);
                    codes(t, o->keyword, strlen(o->keyword));
                    codes(cb, o->valueString, strlen(o->valueString));
                    tr("[\"K\",%s,1,%s,%s]", ca, t, cb);
                    free(t);
                    break;
                }
                case 2: tr("[\"N\",%s,%d]", ca, RKPreferenceGetKeywordCount(p, z)); break;
                default: {
                    int type = (int)rndn(8), cnt = type == 5 ? 1 + (int)(rndn(2) ? rndn(40) : rndn(300)) : 1 + (int)rndn(4), had, q, m = 0;
                    union { int i[4]; unsigned u[4]; bool b[4]; float f[4]; double d[4]; } *v = malloc(sizeof(*v));
                    size_t sz = type == 0 || type == 1 || type == 3 ? 4 : (type == 2 ? 1 : 8);
                    void *t;
                    if (type < 5) t = calloc((size_t)cnt, sz);
                    else if (type == 5) t = calloc(1, (size_t)cnt);
                    else if (type == 6) t = calloc(1, sizeof(RKControl));
                    else t = calloc(1, sizeof(RKWaveformCalibration));
                    had = RKPreferenceGetValueOfKeyword(p, (int)rndn(2), z, t, type, cnt) == RKResultSuccess;
                    if (!had) sprintf(cb, "[]");
                    else if (type < 5) {
                        memcpy(v, t, (size_t)cnt * sz);
                        for (q = 0; q < cnt; q++) m += sprintf(cb + m, "%s%lld", q ? "," : "[", type == 0 ? (long long)v->i[q] : type == 1 ? (long long)v->u[q] :
                            type == 2 ? (long long)v->b[q] : type == 3 ? llround((double)v->f[q] * 100.0) : llround(v->d[q] * 100.0));
                        sprintf(cb + m, "]");
                    } else if (type == 5) codes(cb, t, strlen(t));
                    else if (type == 6) {
                        cb[m++] = '[';
                        m += (int)codes(cb + m, ((RKControl *)t)->label, strlen(((RKControl *)t)->label));
                        cb[m++] = ',';
                        m += (int)codes(cb + m, ((RKControl *)t)->command, strlen(((RKControl *)t)->command));
                        sprintf(cb + m, "]");
                    } else {
                        RKWaveformCalibration *w = t;
                        cb[m++] = '[';
                        m += (int)codes(cb + m, w->name, strlen(w->name));
                        m += sprintf(cb + m, ",%d,[", w->count);
                        for (q = 0; q < w->count; q++) m += sprintf(cb + m, "%s%lld,%lld,%lld,%lld", q ? "," : "", llround(w->ZCal[q][0] * 100.0), llround(w->ZCal[q][1] * 100.0), llround(w->DCal[q] * 100.0), llround(w->PCal[q] * 100.0));
                        sprintf(cb + m, "]]");
                    }
                    tr("[\"G\",%s,%d,%d,%d,%s]", ca, type, cnt, had, cb);
                    free(t); free(v);
                }
            }
            free(z);
        }
    }
    RKPreferenceFree(p);
    tr_close();
    return 0;
}
