// C14: sessions of a web socket client. usage: websocket <seed> <out> <root>
#include <RadarKit.h>
#include <dirent.h>
#include "vsched.h"
#include "vnet.h"

#define PORT 8000
static RKWebSocket *W;
static int nsubs, submitted = 0, shorts, sizes, busyInMessage;
static bool stopping = false;
static uint64_t patience = 0;          // when the clock jumps ahead of those who are at work
static uint8_t *mine[2000];
static size_t mineSize[2000];
extern int trLines(void);
static void ended(const char *why) { tr("[\"%s\"]", why); }
static int fds(void) {
    DIR *d = opendir("/proc/self/fd");
    int n = 0;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
static int txfault(int fd, size_t n, size_t *allow) {
    if ((int)vs_randn(1000) < shorts) {
        if (vs_randn(4) == 0) return EINTR;
        if (n > 1) *allow = 1 + vs_randn((uint32_t)n - 1);
    }
    return 0;
}
static uint8_t at(int id, size_t k) { return k == 0 ? (uint8_t)id : k == 1 ? (uint8_t)(id >> 8) : (uint8_t)(id * 31 + k * 7 + (k >> 8)); }
static void fill(uint8_t *b, int id, size_t n) { for (size_t k = 0; k < n; k++) b[k] = at(id, k); }
static int idOf(const uint8_t *b, size_t n) { return n < 2 ? 0 : b[0] + 256 * b[1]; }
static bool same(const uint8_t *b, int id, size_t n, size_t want) {
    if (n != want) return false;
    for (size_t k = 0; k < n; k++) if (b[k] != at(id, k)) return false;
    return true;
}
static size_t length(void) {        // of every class
    static const size_t e[] = {2, 3, 124, 125, 126, 127, 128, 255, 256, 300, 65535, 65536, 65537, 70000};
    if (sizes && vs_randn(40) == 0) return RKWebSocketFrameSize - 64 - vs_randn(5);
    return vs_randn(3) ? 2 + vs_randn(60) : e[vs_randn(sizes ? 14 : 10)];
}
// ---- the client
static void submit(void) {
    int r, id = __atomic_add_fetch(&submitted, 1, __ATOMIC_SEQ_CST);
    bool big = false;
    if (id > nsubs) return;
    size_t n = id % 7 ? length() : 0;
    if (id % 7 && sizes && vs_randn(60) == 0) { n = RKWebSocketFrameSize; big = true; }
    mine[id] = n ? malloc(n) : NULL;
    mineSize[id] = n;
    if (n) fill(mine[id], id, n);
    tr("[\"sc\",%d]", id);
    r = RKWebSocketSend(W, mine[id], n);
    tr("[\"sr\",%d,%d,%d]", id, r == 0, big);
}
static size_t theirSize[4000];
static int nTheirs = 0;
static void onOpen(RKWebSocket *w) {
    tr("[\"open\"]");
    if (vs_randn(2)) submit();
    if (vs_randn(4) == 0) usleep(vs_randn(20000));
}
static void onClose(RKWebSocket *w) { tr("[\"closed\"]"); }
static void onMessage(RKWebSocket *w, void *p, size_t n) {
    int id = idOf(p, n);
    bool good = n == 0 || (id <= nTheirs && same(p, id, n, theirSize[id]));
    if (((char *)p)[n] != 0) good = false;
    tr("[\"d\",%d,%d]", id, good);
    if ((int)vs_randn(100) < busyInMessage) { if (vs_randn(2)) submit(); else usleep(vs_randn(50000)); }
}
static void *submitter(void *x) {
    int k, burst;
    while (!stopping && submitted < nsubs) {
        usleep(vs_randn(vs_randn(3) ? 3000 : vs_randn(3) ? 200000 : 6000000));
        burst = vs_randn(4) ? 1 + (int)vs_randn(5) : nsubs > 500 ? 1100 : 12;
        for (k = 0; k < burst && !stopping; k++) { submit(); if (nsubs < 500 && vs_randn(3) == 0) usleep(vs_randn(2000)); }
    }
    return NULL;
}
// ---- the peer
static int sd = -1, s = -1;
static uint8_t in[3 * RKWebSocketFrameSize], st[5 * RKWebSocketFrameSize];
static size_t nin = 0, nst = 0;
static bool gone;
typedef struct { size_t end; char ev[48]; } mark_t;
static mark_t mark[4000];
static int nmark = 0, pingsSeen = 0;
static void take(void) {        // the client's frames
    size_t h, n, k;
    uint8_t *p;
    while (nin >= 2) {
        n = in[1] & 127;
        h = 2 + (n == 126 ? 2 : n == 127 ? 8 : 0) + 4;
        if ((in[0] & 0xf0) != 0x80 || !(in[1] & 0x80)) { tr("[\"bad\",%d,%d]", in[0], in[1]); nin = 0; return; }
        if (nin < h) return;
        if (n == 126) { n = (size_t)in[2] * 256 + in[3]; if (n < 126) tr("[\"bad\",1]"); }
        else if (n == 127) { for (k = 0, n = 0; k < 8; k++) n = n * 256 + in[2 + k]; if (n < 65536) tr("[\"bad\",2]"); }
        if (n > 2 * RKWebSocketFrameSize) { tr("[\"bad\",3]"); nin = 0; return; }
        if (nin < h + n) return;
        p = in + h;
        for (k = 0; k < n; k++) p[k] ^= in[h - 4 + k % 4];
        switch (in[0] & 15) {
            case 1: case 2:
                if (n == 0) tr("[\"rx0\"]");
                else {
                    int id = idOf(p, n);
                    tr("[\"rx\",%d,%d]", id, id <= nsubs && mine[id] && same(p, id, n, mineSize[id]));
                }
                break;
            case 8: tr("[\"cback\",%d]", n == 2 && p[0] == 3 && p[1] == 0xe8); break;
            case 9: pingsSeen++; if (n > 125) tr("[\"bad\",4]"); break;
            case 10: tr("[\"pong\",%d]", n && !same(p, idOf(p, n), n, n) ? -1 : (int)n * 1000 + idOf(p, n) % 1000); break;
            default: tr("[\"bad\",5]");
        }
        nin -= h + n;
        memmove(in, in + h + n, nin);
    }
}
static void pump(void) {
    ssize_t r;
    while (!gone) {
        r = vn_get(s, in + nin, sizeof(in) - nin);
        if (r < 0 && errno != ECONNRESET && errno != EPIPE) return;
        if (r <= 0) { gone = true; return; }
        nin += (size_t)r;
        take();
    }
}
static void wait_(uint32_t us) { usleep(vs_randn(us + 1)); pump(); }
static void quiet(int n) {        // nothing new for a while
    int q = 0, before = -1;
    uint64_t sw = 0;
    n *= 20;
    while (q++ < n && !gone) {
        pump();
        if (trLines() != before) { before = trLines(); q = 0; sw = vs_switches(); }
        if (q == n && vs_switches() - sw < patience) q--;
        usleep(sizes ? 100000 : 30000);
    }
}
static void frame(int op, const uint8_t *b, size_t n, bool mask, const char *ev) {
    uint8_t *p = st + nst;
    size_t k;
    *p++ = (uint8_t)(0x80 | op);
    if (n > 65535) { *p++ = (uint8_t)(127 | (mask << 7)); for (k = 0; k < 8; k++) *p++ = (uint8_t)((uint64_t)n >> (56 - 8 * k)); }
    else if (n > 125) { *p++ = (uint8_t)(126 | (mask << 7)); *p++ = (uint8_t)(n >> 8); *p++ = (uint8_t)n; }
    else *p++ = (uint8_t)(n | ((size_t)mask << 7));
    uint8_t key[4] = {0, 0, 0, 0};
    if (mask) for (k = 0; k < 4; k++) *p++ = key[k] = (uint8_t)vs_rand();
    for (k = 0; k < n; k++) p[k] = b[k] ^ key[k % 4];
    nst = (size_t)(p - st) + n;
    mark[nmark].end = nst;
    snprintf(mark[nmark++].ev, 48, "%s", ev);
}
static uint8_t tmp[RKWebSocketFrameSize + 16];
static void batch(int n) {
    char ev[48];
    while (n-- && nst < 2 * RKWebSocketFrameSize) {
        bool mask = vs_randn(4) == 0;
        size_t len = vs_randn(12) ? length() : 0;
        int way = (int)vs_randn(10);
        if (pingsSeen && vs_randn(2)) { pingsSeen--; frame(10, (const uint8_t *)"love", 4, mask, ""); continue; }
        if (way < 3) {
            if (len > 125) len = 2 + len % 124;
            fill(tmp, 1 + (int)vs_randn(900), len);
            sprintf(ev, "[\"pp\",%d]", (int)len * 1000 + idOf(tmp, len) % 1000);
            frame(9, tmp, len, mask, ev);
        } else {
            int id = 0;
            if (len) { id = ++nTheirs; theirSize[id] = len; fill(tmp, id, len); }
            sprintf(ev, "[\"pm\",%d]", id);
            frame(vs_randn(2) ? 1 : 2, tmp, len, mask, ev);
        }
    }
}
static bool flush_(bool even) {     // in pieces
    size_t a, k;
    int j = 0;
    for (a = 0; a < nst; a += k) {
        k = even ? nst : vs_randn(3) ? 1 + vs_randn(20) : 1 + vs_randn((uint32_t)nst);
        if (nst > 4000 && k < nst / 40) k = nst / 40 + vs_randn(100);
        if (a + k > nst) k = nst - a;
        while (j < nmark && mark[j].end <= a + k) { if (mark[j].ev[0]) tr("%s", mark[j].ev); j++; }
        for (size_t w = 0; w < k && !gone; ) {
            ssize_t r = vn_some(s, st + a + w, k - w);
            if (r < 0) { gone = true; break; }
            w += (size_t)r;
            pump();
            if (r == 0) usleep(500);
        }
        if (gone) break;
        if (!even || vs_randn(2)) wait_(vs_randn(3) ? 2000 : vs_randn(3) ? 50000 : 2000000);
    }
    nst = 0; nmark = 0;
    return !gone;
}
static void finish(void) {
    int k;
    for (k = 0; k < 60000 && !gone; k++) wait_(20000);
    tr("[\"%s\"]", gone ? "eof" : "stuck");
    close(s);
    s = -1;
}
static bool session(void) {
    int k, n, way = (int)vs_randn(10);
    for (k = 0; k < 1200 && !stopping && (s = vn_accept(sd)) < 0; k++) usleep(50000);
    if (s < 0) { if (!stopping) tr("[\"nobody\"]"); return false; }
    gone = false; nin = 0; nst = 0; nmark = 0; pingsSeen = 0;
    tr("[\"acc\"]");
    for (k = 0; k < 2000; k++) {
        ssize_t r = vn_get(s, in + nin, sizeof(in) - nin);
        if (r == 0) { gone = true; break; }
        if (r > 0) { nin += (size_t)r; in[nin] = 0; if (strstr((char *)in, "\r\n\r\n")) break; }
        usleep(5000);
    }
    if (gone) { tr("[\"deny\"]"); finish(); return !stopping; }
    in[nin] = 0;
    if (strncmp((char *)in, "GET /ws/ HTTP/1.1\r\n", 19) || !strstr((char *)in, "\r\nSec-WebSocket-Key: RadarHub123456789abcde==\r\n") || !strstr((char *)in, "\r\nUpgrade: websocket\r\n")
        || !strstr((char *)in, "\r\nSec-WebSocket-Version: 13\r\n") || (strstr((char *)in, "\r\n\r\n") + 4 != (char *)in + nin)) tr("[\"bad\",\"handshake\"]");
    nin = 0;
    wait_(vs_randn(4) ? 5000 : 3000000);
    char h[4][100] = {"Upgrade: websocket\r\n", "Connection: Upgrade\r\n", "Sec-WebSocket-Accept: O9QKgAZPEwFaLSqyFPYMHcGBp5g=\r\n", "Server: vnet\r\n"}, *o = (char *)st;
    bool ok = way != 0;
    if (!ok) {
        k = (int)vs_randn(4);
        if (k < 3) h[k][vs_randn(2) ? 0 : (uint32_t)strlen(h[k]) - 4] = 'x';
        tr("[\"deny\"]");
        if (k == 3) { close(s); s = -1; return true; }
    }
    o += sprintf(o, "HTTP/1.1 101 Switching Protocols\r\n");
    for (n = 4; n > 0; n--) {
        k = vs_randn(2) ? 0 : (int)vs_randn((uint32_t)n);
        o += sprintf(o, "%s", h[k]);
        memmove(h[k], h[k + 1], sizeof(h[0]) * (size_t)(n - k - 1));
    }
    o += sprintf(o, "\r\n");
    nst = (size_t)(o - (char *)st);
    if (!ok) { flush_(vs_randn(2)); finish(); return true; }
    mark[0].end = nst; strcpy(mark[0].ev, "[\"hs\"]"); nmark = 1;
    if (vs_randn(2)) batch(1 + (int)vs_randn(4));
    flush_(vs_randn(2));
    n = (int)vs_randn(5);
    for (k = 0; k < n && !gone && !stopping; k++) {
        batch(1 + (int)vs_randn(vs_randn(2) ? 3 : 12));
        flush_(vs_randn(2));
        if (vs_randn(3) == 0) { quiet(150); if (!stopping && !gone) tr("[\"settled\"]"); }
    }
    if (stopping) { finish(); return false; }
    way = (int)vs_randn(8);
    if (way < 3) {
        uint8_t code[2] = {3, 0xe8};
        if (vs_randn(2)) batch(1 + (int)vs_randn(3));
        frame(8, code, 2, vs_randn(4) == 0, "[\"pc\"]");
        flush_(vs_randn(2));
    } else if (way < 5) {
        tr("[\"half\"]");
        shutdown(s, SHUT_WR);
    } else if (way == 5) {
        tr("[\"shut\"]");
        if (vs_randn(2)) pump();
        close(s);
        s = -1;
        return true;
    } else if (way == 6) {
        uint64_t z = vs_randn(2) ? RKWebSocketFrameSize + 64 + vs_randn(100) : 0xffffffffffffff00ull + vs_randn(256);
        uint8_t hd[14] = {0x82, 127};
        for (k = 0; k < 8; k++) hd[2 + k] = (uint8_t)(z >> (56 - 8 * k));
        memcpy(st, hd, nst = 10);
        memset(st + nst, 'x', 50); nst += 50;
        tr("[\"big\"]");
        flush_(vs_randn(2));
    } else while (!stopping && !gone) wait_(100000);
    finish();
    return !stopping;
}
static int nsess;
static bool peerDone = false;
static void *peer(void *x) {
    int k;
    for (k = 0; k < nsess; k++) if (!session()) break;
    peerDone = true;
    if (!stopping && s < 0) {        // the last one stays until the end
        for (k = 0; k < 400 && !stopping; k++) usleep(50000);
    }
    close(sd);
    return NULL;
}
int main(int argc, char **argv) {
    vs_conf c;
    int f0, k;
    pthread_t p, t[2];
    vs_conf_from_seed(&c, strtoull(argv[1], NULL, 10));
    sizes = strtoull(argv[1], NULL, 10) % 6 == 0;
    // time must not run away from those who are at work on something long
    if (sizes && c.preempt && c.preempt < 600) c.preempt = 600;
    if (c.preempt && c.preempt < 300 && c.jump > 2) c.jump = 2;
    vs_giveup = ended;
    c.maxSwitches = 40000000; c.maxTime = 100000;
    tr_open(argv[2]);
    RKSetWantScreenOutput(getenv("VERB") != NULL);
    if (!getenv("VERB")) freopen("/dev/null", "w", stderr);
    vs_start(&c);
    chdir(argv[3]);
    f0 = fds();
    if (c.jump && c.preempt) patience = 5000000u / (unsigned)c.preempt;
    shorts = vs_randn(3) ? (int)vs_randn(300) : 0;
    busyInMessage = vs_randn(2) ? (int)vs_randn(60) : 0;
    nsubs = vs_randn(75) == 0 ? 1300 : (int)vs_randn(60);
    nsess = 1 + (int)vs_randn(4);
    vn_txfault = txfault;
    tr("{\"subs\":%d,\"room\":%d}", nsubs, RKWebSocketPayloadDepth - 1);
    sd = vn_listen(PORT);
    W = RKWebSocketInit("localhost:8000", "/ws/");
    RKWebSocketSetOpenHandler(W, onOpen); RKWebSocketSetCloseHandler(W, onClose); RKWebSocketSetMessageHandler(W, onMessage);
    static const float pi[] = {0.05f, 0.3f, 2.0f, 10.0f};
    RKWebSocketSetPingInterval(W, pi[vs_randn(4)]);
    pthread_create(&p, NULL, peer, NULL);
    RKWebSocketStart(W);
    for (k = 0; k < 2; k++) pthread_create(&t[k], NULL, submitter, NULL);
    if (vs_randn(3)) { while (!peerDone && k++ < 4000) usleep(50000); if (vs_randn(2)) usleep(vs_randn(12000000)); }
    else usleep(vs_randn(vs_randn(2) ? 500000 : 30000000));
    tr("[\"stop\"]");
    stopping = true;
    RKWebSocketStop(W);
    tr("[\"stopped\"]");
    pthread_join(p, NULL);
    for (k = 0; k < 2; k++) pthread_join(t[k], NULL);
    if (s >= 0) close(s);
    RKWebSocketFree(W);
    tr("[\"fds\",%d]", fds() - f0);
    tr("[\"end\"]");
    tr_close();
    _exit(0);
}
