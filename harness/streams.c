// C20: request strings read, sets of streams rendered. usage: streams <seed> <out> <root>
#include <RadarKit.h>
#include "plain.h"

static void bitlist(char *s, const RKStream f) {
    int k, n = 0;
    *s++ = '[';
    for (k = 4; k < 64; k++) if (f & (1ULL << k)) s += sprintf(s, "%s%d", n++ ? "," : "", k);
    sprintf(s, "]");
}
static void codes(char *s, const char *x) {
    int n = 0;
    *s++ = '[';
    for (; *x; x++) s += sprintf(s, "%s%d", n++ ? "," : "", (int)(unsigned char)*x);
    sprintf(s, "]");
}
static char a[100000], b[2000];
static void parse(const char *x) {
    char *y = strdup(x);           // exactly sized: an overrun is seen by the sanitizer
    RKStream f = RKStreamFromString(y);
    codes(a, x); bitlist(b, f);
    tr("[\"p\",%s,%d,%s]", a, (int)(f & 15), b);
    free(y);
}
static void render(const RKStream f) {
    char *s;
    int n;
    static char buf[RKNameLength];
    memset(buf, 'Z', sizeof(buf));
    if (rndn(2)) { n = RKStringFromStream(buf, f); s = buf; } else { s = RKStringOfStream(f); n = (int)strlen(s); }
    codes(a, s); bitlist(b, f);
    tr("[\"s\",%d,%s,%s,%d]", (int)(f & 15), b, a, n);
}
static const char letters[] = "012345678x!hzZvVwWdDpPrRkKsStTiIYUXCOQJHAB";
static char pick(void) { return rndn(6) ? letters[rndn(sizeof(letters) - 1)] : (char)(1 + rndn(255)); }
int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    char s[400];
    int k, j, n;
    rnd_seed(seed);
    tr_open(argv[2]);
    tr("{\"seed\":%lu}", (unsigned long)(seed % 1000000));
    // every single character in turn, a share of all pairs, then anything
    for (k = 1; k < 256; k++) { s[0] = (char)k; s[1] = 0; parse(s); }
    parse("");
    for (k = 0; k < 150; k++) { s[0] = letters[rndn(sizeof(letters) - 1)]; s[1] = pick(); s[2] = 0; parse(s); }
    for (k = 0; k < 150; k++) {
        n = rndn(8) ? rndn(20) : rndn(300);
        for (j = 0; j < n; j++) s[j] = pick();
        s[n] = 0;
        parse(s);
    }
    for (k = 0; k < 64; k++) if (k > 3) render(1ULL << k);
    for (k = 0; k < 10; k++) render(k);
    render(RKStreamNull); render(RKStreamAlmostEverything); render(~15ULL); render(~15ULL | 9);
    for (k = 0; k < 150; k++) {
        RKStream f = rnd() & ~15ULL;
        if (rndn(2)) f &= rnd();
        if (rndn(2)) f &= rnd();
        render(f | rndn(10));
    }
    tr_close();
    return 0;
}
