// C12: clients and commands of the server. usage: server <seed> <out> <root>
#include <RadarKit.h>
#include <dirent.h>
#include "vsched.h"
#include "vnet.h"

#define MAXC 24
static RKServer *M;
static int nops = 0, slowness, quits, beacon, port = 10001, serial = 0, running = 0;
static RKOperator *opOf[MAXC * 2 + 2];
static int onStack = 0;
static void ended(const char *why) { tr("[\"%s\"]", why); }
static int fds(void) {
    DIR *d = opendir("/proc/self/fd");
    int n = 0;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
static char *quoted(const char *s) {
    static char o[4][4096];
    static int w = 0;
    char *p = o[w = (w + 1) % 4], *r = p;
    size_t k, n = strlen(s);
    for (k = 0; k < n && k < 1000; k++) {
        if (s[k] == '"' || s[k] == '\\' || (unsigned char)s[k] < 32 || (unsigned char)s[k] > 126) p += sprintf(p, "~%02x", (uint8_t)s[k]);
        else *p++ = s[k];
    }
    *p = 0;
    return r;
}
static int number(RKOperator *O) {
    int k;
    for (k = nops; k > 0; k--) if (opOf[k] == O) return k;
    return 0;
}
static int onWelcome(RKOperator *O) {
    int n = ++nops;
    opOf[n] = O;
    tr("[\"w\",%d,%d]", n, O->iid);
    if (vs_randn(3) == 0) usleep(vs_randn(20000));
    return 0;
}
static int onTerminate(RKOperator *O) {
    tr("[\"t\",%d]", number(O));
    if (vs_randn(3) == 0) usleep(vs_randn(20000));
    return 0;
}
static int onCommand(RKOperator *O) {
    char s[RKMaximumCommandLength + 8];
    int n = number(O), i = 0, k;
    strcpy(s, O->cmd);
    if (!strcmp(s, "\n") || !strcmp(s, "\r")) s[0] = 0;        // an empty line
    if (sscanf(s, "c%d", &i) != 1 && n) {        // a piece of a line, or an empty one
        i = -1;
    }
    static int owner[MAXC * 2 + 2];
    if (i == -1) i = owner[n]; else owner[n] = i;
    tr("[\"b\",%d,%d,\"%s\"]", n, i, quoted(s));
    k = (int)vs_randn(100) < slowness ? (int)vs_randn(vs_randn(4) ? 30000 : 3000000) : 0;
    if (k) usleep((useconds_t)(k / 2));
    strcat(s, "\n");
    RKOperatorSendString(O, s);
    if (k) usleep((useconds_t)(k / 2));
    s[strlen(s) - 1] = 0;
    if (s[0] && strcmp(O->cmd, s)) tr("[\"changed\",%d]", n);
    if (strstr(s, "quit")) { tr("[\"hang\",%d]", n); RKOperatorHangUp(O); }
    tr("[\"e\",%d]", n);
    return 0;
}
static int onStream(RKOperator *O) { return 0; }
// ---- clients
typedef struct { int i, s; char in[8192]; size_t n; bool gone, refused; int got, sent; bool quit; } client;
static client cs[MAXC + 1];
static void look(client *c) {        // whatever has come
    ssize_t r;
    char *e;
    while (!c->gone) {
        r = vn_get(c->s, c->in + c->n, sizeof(c->in) - 1 - c->n);
        if (r < 0 && errno != ECONNRESET && errno != EPIPE) break;
        if (r <= 0) { c->gone = true; break; }
        c->n += (size_t)r;
        c->in[c->n] = 0;
        while ((e = strchr(c->in, '\n'))) {
            *e = 0;
            if (e > c->in && e[-1] == '\r') e[-1] = 0;
            if (!strcmp(c->in, "Server busy.")) { tr("[\"busy\",%d]", c->i); c->refused = true; }
            else { tr("[\"got\",%d,\"%s\"]", c->i, quoted(c->in)); c->got++; }
            c->n -= (size_t)(e + 1 - c->in);
            memmove(c->in, e + 1, c->n + 1);
        }
    }
}
static void pause_(client *c, uint32_t us) { usleep(vs_randn(us + 1)); look(c); }
static bool talk(client *c, int nl, bool last) {
    static __thread char st[40000], tx[600];
    static __thread struct { size_t end; char text[600]; } mark[64];
    size_t n = 0, a, k, len;
    int m = 0, j;
    bool even = vs_randn(2);
    for (j = 0; j < nl; j++) {
        int way = (int)vs_randn(12);
        len = (size_t)sprintf(tx, "c%d %d ", c->i, ++serial);
        if ((int)vs_randn(100) < quits) len += (size_t)sprintf(tx + len, "quit ");
        for (k = way == 0 ? 505 + vs_randn(4) : len + vs_randn(way < 3 ? 300 : 20); len < k; len++) tx[len] = (char)(33 + vs_randn(90));
        tx[len++] = '.';
        tx[len] = 0;
        if (way == 1) { for (; len < 510; len++) tx[len] = (char)(33 + vs_randn(90)); }     // a line that is too long
        tx[len] = 0;
        memcpy(st + n, tx, len); n += len;
        strcpy(mark[m].text, tx);
        mark[m].end = len >= 510 ? n : 0;
        if (way == 1) { m++; mark[m].text[0] = 0; if (vs_randn(2)) { strcpy(mark[m].text, "tail"); memcpy(st + n, "tail", 4); n += 4; } }
        else if (len < 504 && vs_randn(3) == 0) { memcpy(st + n, "   ", k = 1 + vs_randn(3)); n += k; }
        if (last && j == nl - 1 && vs_randn(2) && mark[m].text[0]) { mark[m++].end = n + 1; break; }      // the end of the stream ends it
        if (vs_randn(2) && len < 504) st[n++] = '\r';
        st[n++] = '\n';
        mark[m++].end = n;
        if (vs_randn(10) == 0) { mark[m].text[0] = 0; st[n++] = '\n'; mark[m++].end = n; }        // nothing at all
    }
    for (a = 0, j = 0; a < n; a += k) {
        k = even ? n : 1 + vs_randn(vs_randn(3) ? 30 : (uint32_t)n);
        if (a + k > n) k = n - a;
        while (j < m && mark[j].end <= a + k) { tr("[\"line\",%d,\"%s\"]", c->i, quoted(mark[j].text)); j++; }
        if (vn_put(c->s, st + a, k) < 0) return false;
        pause_(c, vs_randn(3) ? 2000 : vs_randn(4) ? 100000 : beacon ? 1000000 : 5000000);
        if (c->gone || c->refused) return false;
    }
    if (j < m) { tr("[\"line\",%d,\"%s\"]", c->i, quoted(mark[j].text)); return true; }
    return false;
}
static void *visit(void *x) {
    client *c = x;
    int k, rounds = 1 + (int)vs_randn(3);
    bool end = vs_randn(3) != 0, open = false;
    usleep(vs_randn(vs_randn(2) ? 1000 : 400000));
    tr("[\"conn\",%d]", c->i);
    c->s = vn_port(port);
    if (c->s < 0) { tr("[\"noserver\",%d]", c->i); running--; return NULL; }
    pause_(c, 100000);
    for (k = 0; k < rounds && !c->gone && !c->refused && !open; k++) open = talk(c, (int)vs_randn(vs_randn(2) ? 4 : 20), end && k == rounds - 1);
    if (open) end = true;
    if (end || c->gone || c->refused) {
        look(c);
        if (vs_randn(2) && !c->gone) { tr("[\"leave\",%d,1]", c->i); shutdown(c->s, SHUT_WR); for (k = 0; k < 4000 && !c->gone; k++) pause_(c, 20000); }
        else tr("[\"leave\",%d,0]", c->i);
        close(c->s);
        c->s = -1;
    } else if (beacon) tr("[\"silent\",%d]", c->i);
    running--;
    return NULL;
}
static void settle(int a, int b) {
    int k, q = 0;
    int before = -1;
    extern int trLines(void);
    while (running > 0 || q < (beacon ? 90 : 40)) {
        for (k = a; k <= b; k++) if (cs[k].s >= 0) look(&cs[k]);
        usleep(100000);
        // a beacon is expected: those who stay say something
        q++;
        if (trLines() != before) { before = trLines(); q = 0; }
    }
}
int main(int argc, char **argv) {
    vs_conf c;
    int f0, k, j, n, waves, per, lim, wave, total, ph;
    pthread_t t[MAXC + 1];
    uint64_t seed = strtoull(argv[1], NULL, 10);
    vs_conf_from_seed(&c, seed);
    vs_giveup = ended;
    c.maxSwitches = 20000000;
    tr_open(argv[2]);
    RKSetWantScreenOutput(getenv("VERB") != NULL);
    vs_start(&c);
    f0 = fds();
    lim = 1 + (int)vs_randn(4);
    waves = 1 + (int)vs_randn(3); per = 1 + (int)vs_randn(4);
    slowness = vs_randn(3) ? (int)vs_randn(100) : 0;
    quits = vs_randn(3) ? 0 : (int)vs_randn(20);
    beacon = vs_randn(4) == 0;
    total = waves * per * 2;
    tr("{\"clients\":%d,\"limit\":%d}", total, lim);
    for (k = 1; k <= total; k++) { cs[k].i = k; cs[k].s = -1; }
    for (ph = 0, n = 0; ph < 2; ph++) {
        M = RKServerInit();
        RKServerSetName(M, "<S>"); RKServerSetPort(M, port);
        M->maxClient = lim;
        if (beacon) M->options = RKServerOptionExpectBeacon;
        RKServerSetWelcomeHandler(M, onWelcome); RKServerSetTerminateHandler(M, onTerminate); RKServerSetCommandHandler(M, onCommand);
        if (vs_randn(2)) RKServerSetStreamHandler(M, onStream);
        RKServerStart(M);
        j = n;
        for (wave = 0; wave < waves; wave++) {
            int a = n + 1;
            running = per;
            for (k = 0; k < per; k++) { n++; pthread_create(&t[n], NULL, visit, &cs[n]); }
            if (wave == waves - 1 && vs_randn(2)) { usleep(vs_randn(2000000)); break; }
            settle(j + 1, n);
            tr("[\"settled\"]");
            for (k = a; k <= n; k++) pthread_join(t[k], NULL), t[k] = 0;
            // some of those who stayed leave
            for (k = j + 1; k <= n; k++) if (cs[k].s >= 0 && vs_randn(2)) { look(&cs[k]); tr("[\"leave\",%d,0]", k); close(cs[k].s); cs[k].s = -1; }
            if (vs_randn(2)) { settle(j + 1, n); tr("[\"settled\"]"); }
        }
        tr("[\"stop\"]");
        RKServerStop(M);
        RKServerFree(M);
        tr("[\"stopped\"]");
        for (k = j + 1; k <= n; k++) if (t[k]) { pthread_join(t[k], NULL); t[k] = 0; }
        for (k = j + 1; k <= n; k++) if (cs[k].s >= 0) { look(&cs[k]); tr("[\"eof\",%d]", cs[k].gone); close(cs[k].s); cs[k].s = -1; }
        tr("[\"again\"]");
    }
    tr("[\"fds\",%d]", fds() - f0);
    tr("[\"end\"]");
    tr_close();
    _exit(0);
}
