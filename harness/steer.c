// C07: runs the real scan controller over random command histories and antenna motions.
#include <RadarKit.h>
#include "plain.h"

static RKSteerEngine *engine;
static RKRadarDesc desc;
static RKPosition positions[64];
static uint32_t positionIndex, configIndex;
static RKConfig configs[4];
static int heading;

static int q8(float x) { return (int)lrintf(x * 8.0f); }

static void state(char *s) {
    RKScanObject *V = &engine->vcpHandle;
    sprintf(s, "%d,%d,%d,%d,%d", V->active ? 1 : 0, V->i, V->sweepCount, V->onDeckCount, V->inTheHoleCount);
}

static int angle(int n, int step, int base) { return base + step * (int)rndn(n); }

static int items(char *cmd, char *js, int *mode) {
    // one volume item
    char t[64];
    int k, n, m = mode ? *mode : (int)rndn(5);
    static const int rates[] = {144, 96, 240, 48, 80};
    int r = rates[rndn(5)];
    // a negative rate turns the other way
    if ((m == 0 || m == 1 || m == 3) && rndn(4) == 0) r = -r;
    int azs[] = {0, 360, 720, 1440, 2160, 100};
    int els[] = {16, 32, 48, 160, 4, 0, 360, 240};
    if (m == 0) {
        int e = els[rndn(8)], a = azs[rndn(6)];
        sprintf(cmd, "p %g %g %g", e / 8.0, a / 8.0, r / 8.0);
        sprintf(js, "[\"p\",%d,%d,%d,%d,%d]", e, e, a, a, r);
    } else if (m == 1) {
        int e = els[rndn(8)], a = azs[rndn(6)], b = (a + 160 + 80 * rndn(8)) % 2880;
        sprintf(cmd, "s %g %g,%g %g", e / 8.0, a / 8.0, b / 8.0, r / 8.0);
        sprintf(js, "[\"s\",%d,%d,%d,%d,%d]", e, e, a, b, r);
    } else if (m == 2) {
        int e0 = els[rndn(8)], e1 = e0 + 80 * (1 + rndn(5)), a = azs[rndn(6)];
        if (rndn(2)) { k = e0; e0 = e1; e1 = k; r = -r; }
        sprintf(cmd, "r %g,%g %g %g", e0 / 8.0, e1 / 8.0, a / 8.0, r / 8.0);
        sprintf(js, "[\"r\",%d,%d,%d,%d,%d]", e0, e1, a, a, r);
    } else if (m == 3) {
        int a = azs[rndn(6)];
        n = 1 + rndn(4);
        if (rndn(40) == 0) n = 40;
        strcpy(cmd, "pp "); strcpy(js, "[\"pp\",[");
        for (k = 0; k < n; k++) {
            int e = els[rndn(8)];
            sprintf(t, "%s%g", k ? "," : "", e / 8.0); strcat(cmd, t);
            sprintf(t, "%s%d", k ? "," : "", e); strcat(js, t);
        }
        sprintf(t, " %g %g", a / 8.0, r / 8.0); strcat(cmd, t);
        sprintf(t, "],%d,%d]", a, r); strcat(js, t);
    } else {
        int e0 = els[rndn(8)], e1 = e0 + 80 * (1 + rndn(5));
        n = 1 + rndn(4);
        sprintf(cmd, "rr %g,%g ", e0 / 8.0, e1 / 8.0);
        sprintf(js, "[\"rr\",%d,%d,[", e0, e1);
        for (k = 0; k < n; k++) {
            int a = azs[rndn(6)];
            sprintf(t, "%s%g", k ? "," : "", a / 8.0); strcat(cmd, t);
            sprintf(t, "%s%d", k ? "," : "", a); strcat(js, t);
        }
        sprintf(t, " %g", r / 8.0); strcat(cmd, t);
        sprintf(t, "],%d]", r); strcat(js, t);
    }
    return m;
}

static void command(void) {
    char cmd[8192] = "", js[16384] = "0", st[128], response[RKMaximumStringLength];
    const char *verb = "";
    int u = rndn(16), k, n;
    if (u < 8) {
        static const char *verbs[] = {"line", "once", "now"};
        static const char *prefix[] = {"", "o", "i"};
        int v = rndn(3), m;
        verb = verbs[v];
        char a[4096], b[4096];
        if (rndn(2)) {
            m = 3 + rndn(2);
            items(a, b, &m);
            sprintf(cmd, "%s%s", prefix[v], a);
            sprintf(js, "[%s]", b);
        } else {
            sprintf(cmd, "%svol ", prefix[v]);
            strcpy(js, "[");
            n = 1 + rndn(4);
            if (rndn(30) == 0) n = 12;
            for (k = 0; k < n; k++) {
                items(a, b, NULL);
                if (strlen(cmd) + strlen(a) > 3500) break;
                if (k) { strcat(cmd, "/"); strcat(js, ","); }
                strcat(cmd, a); strcat(js, b);
            }
            strcat(js, "]");
        }
    } else if (u == 8) {
        int e = 8 * rndn(60), a = 8 * rndn(360);
        verb = "aim";
        sprintf(cmd, "point %g %g", e / 8.0, a / 8.0);
        sprintf(js, "[%d,%d]", e, a);
    } else if (u == 9) {
        verb = "home"; strcpy(cmd, "home");
    } else if (u <= 11) {
        static const char *c[] = {"start", "run", "go"};
        verb = "start"; strcpy(cmd, c[rndn(3)]);
    } else if (u == 12) {
        verb = "stop"; strcpy(cmd, rndn(2) ? "stop" : "end");
    } else if (u <= 14) {
        verb = "next"; strcpy(cmd, "next");
    } else {
        verb = "repeat"; k = rndn(2);
        sprintf(js, "%d", k);
        RKSteerEngineSetScanRepeat(engine, k);
    }
    if (cmd[0]) {
        if (rndn(4) == 0) RKSteerEngineExecuteString(engine, "summ", response);
        RKSteerEngineExecuteString(engine, cmd, rndn(2) ? response : NULL);
    }
    state(st);
    tr("[\"C\",\"%s\",%s,%s]", verb, st, js);
}

static int el, az, vel, vaz, gel, gaz, pel = -1, paz = -1;   // antenna and where it is told to go

static int flip(int a) { a %= 2880; return a < 0 ? a + 2880 : a; }

static void report(int style) {
    RKPosition p;
    memset(&p, 0, sizeof(p));
    p.elevationDegrees = el / 8.0f;
    p.azimuthDegrees = az / 8.0f;
    p.elevationVelocityDegreesPerSecond = vel / 8.0f;
    p.azimuthVelocityDegreesPerSecond = vaz / 8.0f;
    uint32_t hw = rndn(4) ? RKPositionFlagAzimuthEnabled | RKPositionFlagElevationEnabled : 0;
    p.flag = hw;
    RKScanAction *a = RKSteerEngineGetAction(engine, &p);
    char f[256] = "", act[256] = "", st[128];
    int k;
    struct { uint32_t b; const char *n; } names[] = {
        {RKPositionFlagVCPActive, "vcp"}, {RKPositionFlagScanActive, "scan"}, {RKPositionFlagAzimuthSweep, "azs"},
        {RKPositionFlagAzimuthPoint, "azp"}, {RKPositionFlagAzimuthComplete, "azc"}, {RKPositionFlagElevationSweep, "els"},
        {RKPositionFlagElevationPoint, "elp"}, {RKPositionFlagElevationComplete, "elc"}};
    uint32_t left = p.flag & ~hw;
    for (k = 0; k < 8; k++) if (p.flag & names[k].b) {
        sprintf(f + strlen(f), "%s\"%s\"", f[0] ? "," : "", names[k].n);
        left &= ~names[k].b;
    }
    if (left || (p.flag & hw) != hw) sprintf(f + strlen(f), "%s\"?\"", f[0] ? "," : "");
    for (k = 0; k < 2; k++) {
        int m = a->mode[k];
        if (m == 0) continue;
        const char *ax = (m & RKPedestalInstructTypeAxisMask) == RKPedestalInstructTypeAxisElevation ? "el" : ((m & RKPedestalInstructTypeAxisMask) == RKPedestalInstructTypeAxisAzimuth ? "az" : "?");
        int i = m & RKPedestalInstructTypeModeMask;
        const char *w = i == RKPedestalInstructTypeModeStandby ? "stop" : (i == RKPedestalInstructTypeModeSlew ? "slew" : (i == RKPedestalInstructTypeModePoint ? "point" : "?"));
        sprintf(act + strlen(act), "%s[\"%s\",\"%s\",%d]", act[0] ? "," : "", ax, w, q8(a->value[k]));
        // the antenna obeys, most of the time
        if (style && rndn(20)) {
            int v = q8(a->value[k]);
            if (ax[0] == 'e') { if (*w == 'p') { pel = v; } else { gel = *w == 's' && w[1] == 't' ? 0 : v; pel = -1; } }
            else { if (*w == 'p') { paz = v; } else { gaz = w[1] == 't' ? 0 : v; paz = -1; } }
        }
    }
    state(st);
    tr("[\"P\",%d,%d,%d,%d,[%s],%d,%d,[%s],%s]", el, az, vel, vaz, f, q8(p.sweepElevationDegrees), q8(p.sweepAzimuthDegrees), act, st);
}

static int toward(int x, int goal) { return x < goal ? (goal - x > 24 ? x + 24 : goal) : (x - goal > 24 ? x - 24 : goal); }

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    rnd_seed(seed);
    int k;
    for (k = 0; k < 10; k++) rnd();
    tr_open(argv[2]);
    RKSetWantScreenOutput(false);
    RKSetRootDataFolder(argv[3]);
    memset(&desc, 0, sizeof(desc));
    desc.positionBufferDepth = 64;
    desc.pulseBufferDepth = 64;
    desc.configBufferDepth = 4;
    heading = 80 * rndn(30);
    desc.heading = heading / 8.0f;
    engine = RKSteerEngineInit();
    RKSteerEngineSetEssentials(engine, &desc, positions, &positionIndex, configs, &configIndex);
    int usepoint = rndn(3) == 0;
    if (usepoint) engine->vcpHandle.option |= RKScanOptionUsePoint;
    if (rndn(4) == 0) RKSteerEngineSetVerbose(engine, 0);
    tr("{\"toc\":%d,\"turn\":200,\"again\":25,\"max\":%d,\"heading\":%d,\"usepoint\":%s}", engine->vcpHandle.toc, RKMaximumScanCount, heading, usepoint ? "true" : "false");
    int style = rndn(4), N = 1500 + rndn(1500), rate = 80 + rndn(400);
    el = 8 * rndn(40); az = 8 * rndn(360);
    for (k = 0; k < N; k++) {
        if (rndn(rate) == 0 || k == 0) {
            int n = rndn(3) ? 1 : 1 + rndn(4);
            while (n--) command();
        }
        if (style) {
            // obeys with limited acceleration, about 12 reports a second
            if (pel >= 0) { int d = pel - el; gel = d > 40 ? 80 : (d < -40 ? -80 : d); if (!d) gel = 0; }
            if (paz >= 0) { int d = flip(paz - az + 1440) - 1440; gaz = d > 40 ? 120 : (d < -40 ? -120 : d * 3); }
            vel = toward(vel, gel); vaz = toward(vaz, gaz);
            int de = vel / 12, da = vaz / 12;
            if (vel && !de) de = rndn(12) < abs(vel) ? (vel > 0 ? 1 : -1) : 0;
            if (vaz && !da) da = rndn(12) < abs(vaz) ? (vaz > 0 ? 1 : -1) : 0;
            el += de; az = flip(az + da);
            if (el > 1440) el = 1440;
            if (el < -16) el = -16;
            if (rndn(200) == 0) vel += (int)rndn(5) - 2;
            if (rndn(200) == 0) vaz += (int)rndn(5) - 2;
            // slewing towards a target ends on it often enough
            RKScanObject *V = &engine->vcpHandle;
            if (V->active && V->sweepCount && rndn(3)) {
                RKScanPath *s = &V->batterScans[V->i];
                int te = q8(s->elevationStart), ta = q8(s->azimuthStart);
                if (!(V->progress & RKScanProgressMiddle) || s->mode == RKScanModePPI) if (abs(el - te) < 8) { el = te; if (rndn(2)) vel = 0; }
                if (!(V->progress & RKScanProgressMiddle) && s->mode != RKScanModePPI) if (abs(az - ta) < 8) { az = ta; if (rndn(2)) vaz = 0; }
            }
        } else {
            // anything goes
            static const int vs[] = {0, 0, 1, -1, 2, -2, 3, 24, -24, 144};
            RKScanObject *V = &engine->vcpHandle;
            RKScanPath *s = &V->batterScans[V->i];
            int te = q8(s->elevationStart), ta = q8(s->azimuthStart), tee = q8(s->elevationEnd), tae = q8(s->azimuthEnd);
            int c = rndn(4);
            if (c == 0) { el = te + (int)rndn(3) - 1; az = flip(ta + (int)rndn(3) - 1); }
            else if (c == 1) { el = tee + (int)rndn(5) - 2; az = flip(tae + (int)rndn(5) - 2); }
            else if (c == 2) { el = te; az = flip(az + (int)rndn(100)); }
            else if (rndn(8) == 0) { el = (int)rndn(500); az = rndn(2880); }
            vel = vs[rndn(10)]; vaz = vs[rndn(10)];
            if (rndn(30) == 0) vaz = q8(s->azimuthSlew);
        }
        report(style);
        // long quiet stretches let a PPI complete
        if (rndn(300) == 0 && engine->vcpHandle.active && engine->vcpHandle.sweepCount) {
            RKScanPath *s = &engine->vcpHandle.batterScans[engine->vcpHandle.i];
            if (s->mode == RKScanModePPI) {
                int n = 220, a0 = q8(s->azimuthEnd);
                el = q8(s->elevationStart); vel = 0; vaz = q8(s->azimuthSlew); gel = 0; gaz = vaz; pel = paz = -1;
                az = flip(a0 - 20);
                while (n--) report(0);
                az = flip(a0 + 20);
                report(0);
            }
        }
    }
    tr_close();
    return 0;
}
