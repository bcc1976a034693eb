// C13: packets over connections that take and give pieces. usage: packets <seed> <out> <root> send|client|server
#include <RadarKit.h>
#include <dirent.h>
#include "vsched.h"
#include "vnet.h"

static void ended(const char *why) { tr("[\"%s\"]", why); }
static int fds(void) {
    DIR *d = opendir("/proc/self/fd");
    int n = 0;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
// ------------------------------------------------------------------ sending
static __thread int me = 0, inCall = 0;
static int calls[8], limit, shorts, refusals, hards, episode[64];
static bool over = false, active[8];
static int txfault(int fd, size_t n, size_t *allow) {
    if (fd < 64 && episode[fd] > 0) { episode[fd]--; return EAGAIN; }
    if ((int)vs_randn(1000) < hards) return vs_randn(2) ? ECONNRESET : EPIPE;
    if ((int)vs_randn(1000) < refusals) {
        if (fd < 64 && vs_randn(8) == 0) episode[fd] = 1 + (int)vs_randn(me == 7 ? 60 : 24);
        return vs_randn(3) ? EAGAIN : EINTR;
    }
    if (n > 1 && (int)vs_randn(1000) < shorts) *allow = 1 + vs_randn((uint32_t)n - 1);
    return 0;
}
static void bytes(char *o, const void *b, size_t n) {
    size_t k;
    o += sprintf(o, "[");
    for (k = 0; k < n; k++) o += sprintf(o, "%s%d", k ? "," : "", ((const uint8_t *)b)[k]);
    sprintf(o, "]");
}
static void wire(int fd, const void *b, size_t n, ssize_t r, int err) {
    static char o[100000];
    if (over) return;
    if (r > 0) { bytes(o, b, (size_t)r); tr("[\"w\",%d,%s]", inCall ? me : 0, o); }
    else if (n == 0) return;
    else if (r == 0 || err == EAGAIN || err == EWOULDBLOCK || err == EINTR) tr("[\"n\",%d]", inCall ? me : 0);
    else tr("[\"f\",%d]", inCall ? me : 0);
}
static void begin(int conn, const char *text) { tr("[\"c\",%d,%d,%s]", me, conn, text); inCall = 1; }
static void finish(ssize_t v, int patience) { inCall = 0; tr("[\"r\",%d,%d,%d]", me, (int)v, patience); }
static void headed(char *o, int type, const char *text) {     // the bytes of a packet with a header that is built for us
    size_t k, n = strlen(text);
    o += sprintf(o, "[%d,%d,256,256,%d,%d,%d,%d,256,256,256,256,256,256,256,256", type & 255, type >> 8, (int)n & 255, (int)(n >> 8) & 255, 0, 0);
    for (k = 0; k < n; k++) o += sprintf(o, ",%d", (uint8_t)text[k]);
    sprintf(o, "]");
}
static size_t size(void) { return vs_randn(3) ? vs_randn(12) : vs_randn(vs_randn(4) ? 60 : 250); }
static void some(RKOperator *O, int sd) {
    char *o = malloc(8000), *t = malloc(2000);
    uint8_t *p[3];
    size_t n[3], k, m, j;
    ssize_t r;
    for (k = 0; k < 3; k++) {
        n[k] = size();
        p[k] = malloc(n[k] + 1);
        for (j = 0; j < n[k]; j++) p[k][j] = (uint8_t)vs_rand();
    }
    switch (O ? vs_randn(6) : 0) {
    case 0: case 1:
        m = 1 + vs_randn(3);
        for (k = 0, j = 0; k < m; k++) { memcpy(t + j, p[k], n[k]); j += n[k]; }
        bytes(o, t, j);
        begin(O ? 1 : 2, o);
        if (O) r = m == 1 ? RKOperatorSendPackets(O, p[0], (ssize_t)n[0], NULL)
                 : m == 2 ? RKOperatorSendPackets(O, p[0], (ssize_t)n[0], p[1], (ssize_t)n[1], NULL)
                 : RKOperatorSendPackets(O, p[0], (ssize_t)n[0], p[1], (ssize_t)n[1], p[2], (ssize_t)n[2], NULL);
        else r = m == 1 ? RKNetworkSendPackets(sd, p[0], (ssize_t)n[0], NULL)
               : m == 2 ? RKNetworkSendPackets(sd, p[0], (ssize_t)n[0], p[1], (ssize_t)n[1], NULL)
               : RKNetworkSendPackets(sd, p[0], (ssize_t)n[0], p[1], (ssize_t)n[1], p[2], (ssize_t)n[2], NULL);
        break;
    case 2:
        for (k = 0; k < n[0]; k++) t[k] = (char)(33 + p[0][k] % 90);
        t[k] = 0;
        bytes(o, t, k);
        begin(1, o);
        r = RKOperatorSendString(O, t);
        break;
    case 3: case 4:
        for (k = 0; k < n[0]; k++) t[k] = (char)(33 + p[0][k] % 90);
        t[k] = 0;
        j = vs_randn(2);
        headed(o, j ? RKNetworkPacketTypePlainText : RKNetworkPacketTypeCommandResponse, t);
        begin(1, o);
        r = j ? RKOperatorSendDelimitedString(O, t) : RKOperatorSendCommandResponse(O, t);
        break;
    default:
        headed(o, RKNetworkPacketTypeBeacon, "");
        begin(1, o);
        r = RKOperatorSendBeacon(O);
    }
    finish(r, O ? 5 : 100);
    for (k = 0; k < 3; k++) free(p[k]);
    free(o); free(t);
}
static void *helper(void *x) {
    int k;
    me = active[3] ? 4 : 3;
    active[me] = true;
    for (k = 1 + (int)vs_randn(3); k > 0; k--) { some((RKOperator *)x, -1); if (vs_randn(2)) usleep(vs_randn(2000)); }
    active[me] = false;
    return NULL;
}
static int onStream(RKOperator *O) {
    me = 1;
    if (calls[1] < limit && vs_randn(3)) { calls[1]++; some(O, -1); }
    return 0;
}
static int onCommand(RKOperator *O) {
    pthread_t h[2];
    int k, n = (int)vs_randn(3);
    me = 2;
    for (k = 0; k < n; k++) pthread_create(&h[k], NULL, helper, O);
    for (k = (int)vs_randn(3); k > 0; k--) some(O, -1);
    for (k = 0; k < n; k++) pthread_join(h[k], NULL);
    calls[2]++;
    return 0;
}
static void *lonely(void *x) {
    int k;
    me = 7;
    for (k = 0; k < limit; k++) some(NULL, (int)(long)x);
    over = true;
    close((int)(long)x);
    return NULL;
}
static int nothing(RKOperator *O) { return 0; }
static void sending(void) {
    int s, k, c, sp[2];
    char b[4096];
    pthread_t t;
    RKServer *M = RKServerInit();
    RKServerSetName(M, "<S>"); RKServerSetPort(M, 10001);
    RKServerSetWelcomeHandler(M, nothing); RKServerSetTerminateHandler(M, nothing);
    RKServerSetStreamHandler(M, onStream); RKServerSetCommandHandler(M, onCommand);
    limit = 4 + (int)vs_randn(12);
    shorts = vs_randn(3) ? (int)vs_randn(1000) : 0;
    refusals = vs_randn(3) ? (int)vs_randn(500) : 0;
    hards = vs_randn(3) ? 0 : (int)vs_randn(30);
    tr("{\"mode\":\"send\"}");
    RKServerStart(M);
    vn_txfault = txfault; vn_wire = wire;
    s = vn_port(10001);
    if (vs_randn(3)) {
        int own = limit;
        c = 1 + (int)vs_randn(5);
        for (k = 0; k < c; k++) { vn_put(s, "go\r\n", 4); usleep(vs_randn(30000)); }
        for (k = 0; k < 600 && (calls[1] < own || calls[2] < c); k++) {
            ssize_t r = vn_get(s, b, 1 + vs_randn(sizeof(b) - 1));
            if (r == 0) break;
            usleep(5000);
        }
        usleep(300000);
        close(s);
    } else {
        close(s);
        calls[1] = limit;
        socketpair(AF_UNIX, SOCK_STREAM, 0, sp);
        pthread_create(&t, NULL, lonely, (void *)(long)sp[0]);
        while (!over) { vn_get(sp[1], b, sizeof(b)); usleep(10000); }
        pthread_join(t, NULL);
        close(sp[1]);
    }
    RKServerStop(M);
    RKServerFree(M);
    over = true;
}
// ------------------------------------------------------------------ receiving
static RKNetworkMessageFormat format;
static int rxshort, rxnone, slow, block, served = 0;
static bool finished = false;
static int rxfault(int fd, size_t *n, int fl) {
    if ((int)vs_randn(1000) < rxnone) {
        if (fl & MSG_DONTWAIT) return vs_randn(2) ? EAGAIN : EINTR;
        return EINTR;
    }
    if (*n > 1 && (int)vs_randn(1000) < rxshort) *n = 1 + vs_randn((uint32_t)(*n < 1000000 ? *n - 1 : 1000000));
    return 0;
}
static char *token(const uint8_t *p, size_t n) {
    static char o[400];
    size_t k;
    uint64_t h = 1469598103934665603ull;
    if (n <= 40) for (k = 0, o[0] = 0; k < n; k++) sprintf(o + 2 * k, "%02x", p[k]);
    else {
        for (k = 0; k < n; k++) h = (h ^ p[k]) * 1099511628211ull;
        sprintf(o, "%zu:%016llx", n, (unsigned long long)h);
    }
    return o;
}
static void deliver(int type, const void *p, size_t n) { tr("[\"d\",%d,\"%s\"]", type, token(p, n)); }
static int onReceive(RKClient *C) {
    const uint8_t *p = C->userPayload;
    if (format == RKNetworkMessageFormatHeaderDefinedSize) deliver((int)C->netDelimiter.type, p, C->netDelimiter.size);
    else if (format == RKNetworkMessageFormatConstantSize) deliver(0, p, (size_t)block);
    else { size_t n = strlen((char *)p); if (n && p[n - 1] == '\n') n--; deliver(0, p, n); }
    if ((int)vs_randn(100) < slow) usleep(vs_randn(600000));
    return 0;
}
static int exits = 0;
static int onExit(RKClient *C) { exits++; return 0; }
static int onPayloads(RKOperator *O) {
    static uint8_t p[RKMaximumPacketSize + 1];
    ssize_t r;
    while ((r = RKServerReceiveUserPayload(O, p, format)) >= 0) {
        deliver(format == RKNetworkMessageFormatHeaderDefinedSize ? (int)O->delimRx.type : 0, p, (size_t)r);
        if ((int)vs_randn(100) < slow) usleep(vs_randn(600000));
    }
    if (!finished) tr("[\"fail\"]");
    served++;
    RKOperatorHangUp(O);
    return 0;
}
static uint8_t *st; static size_t nst, cap;
static void add(const void *b, size_t n) {
    while (nst + n > cap) st = realloc(st, cap = 2 * cap + 1024);
    memcpy(st + nst, b, n);
    nst += n;
}
// One connection: packets in pieces, perhaps one that makes no sense or is never completed at the end
static void feed(int s, bool server) {
    static struct { size_t end; int type; char tok[400]; } mark[400];
    static uint8_t junk[1 << 16];
    RKNetDelimiter h;
    int np = 1 + (int)vs_randn(14), k, m = 0, way = (int)vs_randn(6);
    size_t j, n, a, bad = 0;
    bool even = vs_randn(3) == 0, stalls = vs_randn(3) == 0;
    nst = 0;
    for (k = 0; k < np; k++) {
        n = vs_randn(6) == 0 ? 0 : vs_randn(5) ? vs_randn(40) : vs_randn(vs_randn(6) ? 3000 : 60000);
        for (j = 0; j < n; j++) junk[j] = (uint8_t)vs_rand();
        if (format == RKNetworkMessageFormatHeaderDefinedSize) {
            for (j = 0; j < sizeof(h); j++) h.bytes[j] = (uint8_t)vs_rand();
            h.type = (uint16_t)(vs_randn(2) ? vs_randn(20) : vs_randn(300)); h.size = (uint32_t)n;
            add(&h, sizeof(h));
            mark[m].type = h.type;
        } else {
            mark[m].type = 0;
            if (format == RKNetworkMessageFormatConstantSize) {
                n = (size_t)block;
                for (j = 0; j < n; j++) junk[j] = (uint8_t)vs_rand();
            } else for (j = 0; j < n; j++) junk[j] = (uint8_t)(32 + junk[j] % 90);
        }
        add(junk, n);
        strcpy(mark[m].tok, token(junk, n));
        if (format == RKNetworkMessageFormatNewLine) add("\n", 1);
        mark[m++].end = nst;
    }
    if (way == 2 && vs_randn(8) == 0 && format == RKNetworkMessageFormatHeaderDefinedSize) {      // as large as can be
        h.type = 7; h.size = RKMaximumPacketSize;
        a = nst + sizeof(h);
        add(&h, sizeof(h));
        for (j = 0; j < h.size; j += sizeof(junk)) { junk[vs_randn(sizeof(junk))]++; add(junk, sizeof(junk)); }
        mark[m].type = 7;
        strcpy(mark[m].tok, token(st + a, h.size));
        mark[m++].end = nst;
    }
    bad = nst;
    if (way == 0 && format == RKNetworkMessageFormatHeaderDefinedSize) {
        bool all = vs_randn(4) == 0;       // even though all of it comes
        h.type = 5; h.size = RKMaximumPacketSize + 1 + (all || vs_randn(2) ? vs_randn(100) : (uint32_t)vs_rand() % 2000000000u);
        add(&h, sizeof(h));
        if (all) for (j = 0; j < h.size; j += n) { n = h.size - j < sizeof(junk) ? h.size - j : sizeof(junk); add(junk, n); }
        else add(junk, vs_randn(2000));
    } else if (way == 1 && format == RKNetworkMessageFormatHeaderDefinedSize) {
        h.type = 6; h.size = 50 + vs_randn(1000);
        add(&h, sizeof(h)); add(junk, vs_randn(h.size));
        if (vs_randn(2)) nst = bad + 1 + vs_randn(15);
    } else if (way == 1 && format == RKNetworkMessageFormatConstantSize && block > 1) add(junk, 1 + vs_randn((uint32_t)block - 1));
    for (a = 0, k = 0; a < nst; a += n) {
        n = even ? nst : 1 + vs_randn(vs_randn(4) ? 20 : (uint32_t)nst);
        if (nst > 6000 && n < 200) n += nst > 1000000 ? 100000 : 1000;
        if (a + n > nst) n = nst - a;
        while (k < m && mark[k].end <= a + n) { tr("[\"p\",%d,\"%s\"]", mark[k].type, mark[k].tok); k++; }
        if (bad < nst && a + n > bad && a <= bad) tr("[\"bad\"]");
        if (vn_put(s, st + a, n) < 0) { tr("[\"dropped\"]"); return; }
        if (vs_randn(3)) usleep(vs_randn(vs_randn(5) ? 3000 : 300000));
        if (stalls && vs_randn(8) == 0) usleep(vs_randn(4000000));
    }
    if (vs_randn(3) == 0) usleep(vs_randn(2000000));
    if (bad == nst || way == 1) { tr("[\"gone\"]"); shutdown(s, SHUT_WR); }
    // the other side lets go of the connection
    for (k = 0; k < 60000; k++) {
        if (vn_get(s, junk, 1000) == 0) break;
        usleep(10000);
    }
    tr("[\"closed\",%d]", k < 60000);
}
static void receiving(bool server) {
    int conns = 1 + (int)vs_randn(3), k, s, ls = -1;
    RKServer *M = NULL;
    RKClient *C = NULL;
    format = server ? RKNetworkMessageFormatConstantSize + (int)vs_randn(2) : (int)vs_randn(3);
    if (!server && vs_randn(2)) format = RKNetworkMessageFormatHeaderDefinedSize;
    block = server ? 4 : 1 + (int)vs_randn(40);
    rxshort = vs_randn(3) ? (int)vs_randn(1000) : 0;
    rxnone = vs_randn(3) ? (int)vs_randn(400) : 0;
    slow = vs_randn(2) ? 0 : (int)vs_randn(50);
    tr("{\"mode\":\"%s\",\"format\":%d}", server ? "server" : "client", format);
    vs_rxfault = rxfault;
    if (server) {
        M = RKServerInit();
        RKServerSetName(M, "<S>"); RKServerSetPort(M, 10001);
        RKServerSetWelcomeHandler(M, nothing); RKServerSetTerminateHandler(M, nothing);
        RKServerSetStreamHandler(M, onPayloads);
        RKServerStart(M);
    } else {
        RKClientDesc d;
        memset(&d, 0, sizeof(d));
        strcpy(d.name, "<C>"); strcpy(d.hostname, "localhost");
        d.port = 10002; d.type = RKNetworkSocketTypeTCP; d.format = format; d.reconnect = true; d.timeoutSeconds = 5;
        d.blocking = vs_randn(2);
        if (format == RKNetworkMessageFormatConstantSize) d.blockLength = block;
        ls = vn_listen(10002);
        C = RKClientInitWithDesc(d);
        RKClientSetReceiveHandler(C, onReceive);
        RKClientSetCloseHandler(C, onExit);
        RKClientStart(C, false);
    }
    for (k = 0; k < conns; k++) {
        if (server) while (served < k) usleep(10000);
        if (server) s = vn_port(10001);
        else { int w = 0; while ((s = vn_accept(ls)) < 0 && w++ < 6000) usleep(10000); }
        if (s < 0) { tr("[\"refused\"]"); break; }
        tr("[\"open\"]");
        feed(s, server);
        close(s);
        usleep(vs_randn(200000));
    }
    usleep(2000000);
    tr("[\"quiet\"]");
    if (server) { finished = true; RKServerStop(M); RKServerFree(M); }
    else {
        RKClientStop(C);
        tr("[\"off\",%d]", exits);
        close(ls);
        usleep(500000);
        RKClientFree(C);
    }
}
int main(int argc, char **argv) {
    vs_conf c;
    int f0;
    uint64_t seed = strtoull(argv[1], NULL, 10);
    vs_conf_from_seed(&c, seed);
    vs_giveup = ended;
    tr_open(argv[2]);
    RKSetWantScreenOutput(getenv("VERB") != NULL);
    vs_start(&c);
    f0 = fds();
    if (!strcmp(argv[3 + 1], "send")) sending(); else receiving(!strcmp(argv[4], "server"));
    tr("[\"fds\",%d]", fds() - f0);
    tr("[\"end\"]");
    tr_close();
    _exit(0);
}
