// C17: threads push and pop commands. usage: queue <seed> <out> <root>
#include <RadarKit.h>
#include "vsched.h"

static RKCommandQueue *queue;
static int label = 0, nops, share[10];
static bool waits;
static int left = 0, running;       // accepted pushes less the pops begun

static int check(const char *c) {      // the text is whole, or it is no command at all
    int v = atoi(c + 2), n = v % 500;
    char want[sizeof(RKCommand)];
    snprintf(want, sizeof(want), "t %d ", v);
    size_t m = strlen(want);
    memset(want + m, 'a' + v % 26, (size_t)n);
    want[m + (size_t)n < sizeof(want) ? m + (size_t)n : sizeof(want) - 1] = 0;
    return strcmp(want, c) ? -v - 1000000 : v;
}
static void push(int t) {
    RKCommand c;
    int v = ++label;
    memset(c, 0, sizeof(c));
    sprintf(c, "t %d ", v);
    size_t m = strlen(c), n = (size_t)v % 500;
    memset(c + m, 'a' + v % 26, m + n < sizeof(c) ? n : sizeof(c) - 1 - m);
    c[sizeof(c) - 1] = 0;
    tr("[\"c\",%d,\"P\",%d]", t, v);
    v = RKCommandQueuePush(queue, &c) == RKResultSuccess;
    if (v) left++;
    tr("[\"r\",%d,%d]", t, v);
    memset(c, 'Z', sizeof(c));
}
static void *worker(void *x) {
    int t = (int)(long)x, k;
    RKCommand c, *p;
    for (k = 0; k < nops; k++) {
        if ((int)vs_randn(10) < share[t]) {
            push(t);
        } else {
            left--;
            tr("[\"c\",%d,\"%s\",0]", t, waits ? "W" : "O");
            p = RKCommandQueuePop(queue);
            tr("[\"r\",%d,%d]", t, p ? check(*p) : 0);
            if (p && vs_randn(3) == 0) {       // it stays while others go on
                memcpy(c, *p, sizeof(c));
                usleep(vs_randn(300));
                if (memcmp(c, *p, sizeof(c))) tr("[\"changed\",%d]", t);
            }
        }
        if (vs_randn(3) == 0) usleep(vs_randn(200));
    }
    running--;
    return NULL;
}
static void ended(const char *why) { tr("[\"%s\"]", why); }

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    vs_conf c;
    int k, ph, n, depth;
    (void)argc;
    vs_conf_from_seed(&c, seed);
    vs_giveup = ended;
    tr_open(argv[2]);
    RKSetWantScreenOutput(false);
    vs_start(&c);
    depth = vs_randn(4) ? 1 + (int)vs_randn(4) : 1 + (int)vs_randn(20);
    waits = vs_randn(2);
    n = 1 + (int)vs_randn(4); nops = 5 + (int)vs_randn(n > 2 ? 12 : 30);
    queue = RKCommandQueueInit((uint16_t)depth, !waits);
    tr("{\"depth\":%d,\"threads\":%d,\"waits\":%d}", depth, n, waits);
    for (ph = 0; ph < 3; ph++) {
        pthread_t tid[8];
        for (k = 1; k <= n; k++) share[k] = vs_randn(4) ? 1 + (int)vs_randn(9) : (vs_randn(2) ? 0 : 10);
        running = n;
        for (k = 0; k < n; k++) pthread_create(&tid[k], NULL, worker, (void *)(long)(k + 1));
        while (waits && running) {
            usleep(200 + vs_randn(3000));
            if (left < 0) push(0);
        }
        for (k = 0; k < n; k++) pthread_join(tid[k], NULL);
        tr("[\"Q\",%d,%d,%d]", (int)queue->count, (int)queue->tic, (int)queue->toc);
    }
    RKCommandQueueFree(queue);
    tr("[\"end\",%d,%lu,%lu]", vs_alive(), vs_switches(), vs_blocks());
    tr_close();
    _exit(0);
}
