// C21: control and calibration tables. usage: tables <seed> <out> <root>
#include <RadarKit.h>
#include "plain.h"

void RKUpdateWaveformCalibration(RKRadar *, const uint8_t, const RKWaveformCalibration *);
void RKUpdateControl(RKRadar *, const uint8_t, const RKControl *);

static RKRadar *radar;
static char *mine;      // what the radar looked like, the two counters aside
static int cc, cw;
static char buf[400000], uids[20000];

static int text(char *s, const char *x, const size_t cap) {
    size_t n = strnlen(x, cap), k;
    for (k = 1; k < n && x[k] == x[k - 1]; k++);
    if (n > 8 && k == n) return sprintf(s, "\"%c\",%zu", x[0], n);
    return sprintf(s, "\"%.40s\",%zu", x, n);
}
static int changed(void) {
    RKRadar *copy = (RKRadar *)mine;
    copy->controlCount = radar->controlCount;
    copy->waveformCalibrationCount = radar->waveformCalibrationCount;
    return memcmp(mine, radar, sizeof(RKRadar)) ? 1 : 0;
}
static int calibration(char *s, const RKWaveformCalibration *w) {
    int j, ok = w->count == 2;
    for (j = 0; j < 2; j++) ok &= w->ZCal[j][0] == w->ZCal[0][0] + 10 * j && w->ZCal[j][1] == w->ZCal[0][0] + 100 + j && w->DCal[j] == 2 * w->ZCal[0][0] && w->PCal[j] == 3 * w->ZCal[0][0];
    int n = sprintf(s, "["); n += text(s + n, w->name, RKNameLength);
    return n + sprintf(s + n, ",\"\",%d]", w->name[0] == 0 ? 0 : ok ? (int)w->ZCal[0][0] : -1);
}
static void dump(const char x) {
    char *s = buf, *u = uids;
    int k, m = x == 'C' ? cc : cw;
    for (k = 0; k < m; k++) {
        if (k) { *s++ = ','; *u++ = ','; }
        if (x == 'C') {
            RKControl *c = &radar->controls[k];
            s += sprintf(s, "["); s += text(s, c->label, sizeof(c->label)); s += sprintf(s, ","); s += text(s, c->command, sizeof(c->command)); s += sprintf(s, "]");
            u += sprintf(u, "%d", (int)c->uid);
        } else {
            s += calibration(s, &radar->waveformCalibrations[k]);
            u += sprintf(u, "%d", (int)radar->waveformCalibrations[k].uid);
        }
    }
    tr("[\"D\",\"%c\",%u,[%s],[%s],%d]", x, x == 'C' ? radar->controlCount : radar->waveformCalibrationCount, buf, uids, changed());
}
static char *word(int *len, const int big) {
    int n = rndn(8) ? 1 + rndn(6) : rndn(3) == 0 ? 0 : big - 20 + rndn(60);
    char *s = malloc(n + 1);
    memset(s, 'a' + rndn(26), n); s[n] = 0;
    *len = n;
    return s;
}
static void shown(void) {
    static char j[400000];
    memset(j, 'Z', sizeof(j));
    RKMakeJSONStringFromControls(j, radar->controls, radar->controlCount);
    char *s = buf, *p = j, *e;
    int n = 0;
    while (*p) {
        char label[RKNameLength + 10], command[RKMaximumCommandLength + 10];
        if (strncmp(p, "{\"Label\": \"", 11)) { s += sprintf(s, ",0"); break; }
        p += 11; e = strchr(p, '"'); memcpy(label, p, e - p); label[e - p] = 0; p = e;
        if (strncmp(p, "\", \"Command\": \"", 15)) { s += sprintf(s, ",0"); break; }
        p += 15; e = strchr(p, '"'); memcpy(command, p, e - p); command[e - p] = 0; p = e + 1;
        if (*p++ != '}') { s += sprintf(s, ",0"); break; }
        if (n++) *s++ = ',';
        s += sprintf(s, "["); s += text(s, label, 1000); s += sprintf(s, ","); s += text(s, command, 1000); s += sprintf(s, "]");
        if (!strncmp(p, ", ", 2) && p[2]) p += 2;
    }
    *s = 0;
    tr("[\"J\",[%s]]", buf);
}
static char *literal(const char *s, const int n) { static char b[4][20]; static int k = 0; char *o = b[k++ % 4]; if (n > 8) sprintf(o, "%c", s[0]); else strcpy(o, s); return o; }

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], NULL, 10);
    int k, n, a, b, s;
    rnd_seed(seed);
    tr_open(argv[2]);
    RKSetWantScreenOutput(false);
    radar = calloc(1, sizeof(RKRadar));
    mine = calloc(1, sizeof(RKRadar));
    cc = rndn(4) ? 1 + rndn(5) : 100 + rndn(29); cw = rndn(4) ? 1 + rndn(5) : 100 + rndn(29);
    radar->desc.controlCapacity = cc; radar->desc.waveformCalibrationCapacity = cw;
    radar->controls = calloc(cc, sizeof(RKControl)); radar->waveformCalibrations = calloc(cw, sizeof(RKWaveformCalibration));
    for (k = 0; k < cc; k++) radar->controls[k].uid = -(uint32_t)cc + k;
    for (k = 0; k < cw; k++) radar->waveformCalibrations[k].uid = -(uint32_t)cw + k;
    memcpy(mine, radar, sizeof(RKRadar));
    tr("{\"cc\":%d,\"cw\":%d}", cc, cw);
    int grow = rndn(3);
    n = cc > 8 || cw > 8 ? 700 : 120;
    for (k = 0; k < n; k++) {
        int o = rndn(grow ? 40 : 10), x = rndn(2) ? 'C' : 'W';
        if (o > 9) o = 0;
        char *p = word(&a, RKNameLength), *q = word(&b, RKMaximumCommandLength);
        RKControl c; memset(&c, 'q', sizeof(c));
        RKWaveformCalibration w; memset(&w, 0, sizeof(w));
        int v = 1 + rndn(500), j;
        char content[200];
        if (x == 'W' && a == 0) { free(p); p = strdup("w"); a = 1; }
        snprintf(c.label, sizeof(c.label), "%s", p); snprintf(c.command, sizeof(c.command), "%s", q);
        snprintf(w.name, sizeof(w.name), "%s", p); w.count = 2; w.uid = (uint32_t)(-1000 - v);
        for (j = 0; j < 2; j++) { w.ZCal[j][0] = v + 10 * j; w.ZCal[j][1] = v + 100 + j; w.DCal[j] = 2 * v; w.PCal[j] = 3 * v; }
        if (x == 'C') sprintf(content, "[\"%s\",%d,\"%s\",%d]", literal(p, a), a, literal(q, b), b); else calibration(content, &w);
        if (o < 5) {
            if (x == 'W') RKAddWaveformCalibration(radar, &w);
            else if (rndn(2)) RKAddControl(radar, &c); else RKAddControlAsLabelAndCommand(radar, p, q);
            tr("[\"A\",\"%c\",%s,%u]", x, content, x == 'C' ? radar->controlCount : radar->waveformCalibrationCount);
        } else if (o < 7) {
            s = rndn(3) ? rndn((x == 'C' ? cc : cw) + 2) : rndn(256);
            if (x == 'W') RKUpdateWaveformCalibration(radar, s, &w); else RKUpdateControl(radar, s, &c);
            tr("[\"U\",\"%c\",%d,%s,%u]", x, s, content, x == 'C' ? radar->controlCount : radar->waveformCalibrationCount);
        } else if (o == 7) {
            if (x == 'W') RKClearWaveformCalibrations(radar); else RKClearControls(radar);
            tr("[\"Z\",\"%c\",%u]", x, x == 'C' ? radar->controlCount : radar->waveformCalibrationCount);
        } else {
            if (x == 'W') RKConcludeWaveformCalibrations(radar); else RKConcludeControls(radar);
            tr("[\"C\",\"%c\",%u]", x, x == 'C' ? radar->controlCount : radar->waveformCalibrationCount);
        }
        if ((x == 'C' ? cc : cw) < 8 || rndn(40) == 0) dump(x);
        if (x == 'C' && (cc < 8 ? rndn(3) == 0 : rndn(60) == 0)) shown();
        free(p); free(q);
    }
    dump('C'); dump('W'); shown();
    tr_close();
    return 0;
}
