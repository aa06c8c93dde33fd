// Orbit prediction against independent oracles. modes: near, deep, mix, tle, fuzz, threads
#include "vh.h"
#include "vh_tle.h"
#include "ref_sgp4.h"
#include "sgpsdp/sgp4sdp4.h"
#include <pthread.h>
int fz_predict(double epoch, const double *el, const double *tsince, int n, double (*out)[6]);

static int load(vtle *t, sat_t *s) {
    memset(s, 0, sizeof *s);
    char l[3][80];
    memcpy(l, t->line, sizeof l);
    if (Get_Next_Tle_Set(l, &s->tle) != 1) return -1;
    select_ephemeris(s);
    s->jul_epoch = Julian_Date_of_Epoch(s->tle.epoch);
    return 0;
}
static void predict(sat_t *s, double tsince, double *o) {
    if (s->flags & DEEP_SPACE_EPHEM_FLAG) SDP4(s, tsince); else SGP4(s, tsince);
    vector_t p = s->pos, v = s->vel;
    Convert_Sat_State(&s->pos, &s->vel);
    o[0] = s->pos.x; o[1] = s->pos.y; o[2] = s->pos.z; o[3] = s->vel.x; o[4] = s->vel.y; o[5] = s->vel.z;
    (void) p; (void) v;
}
static double dist(const double *a, const double *b) { return sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])); }
#define LINES(t) (t)->line[1], (t)->line[2]
static long evals, distinct, deep_n, near_n, decayed, obs_n, refused, accepted, mixes;
static double worst_near, worst_fz, worst_rate;

static double pick_t(vh_rng *r) {
    switch (vh_below(r, 8)) {
        case 6: case 7: return vh_sym(r) * 60;
        case 0: return vh_sym(r) * 10;
        case 1: return vh_sym(r) * 300;
        case 2: return vh_sym(r) * 14400;
        case 3: return 0;
        default: return vh_sym(r) * 4320;
    }
}

static void one_orbit(uint64_t seed, uint64_t k, int kind) {
    vh_rng r = vh_seed(seed, k * 3 + kind);
    vtle t;
    vtle_make(&r, &t, kind);
    sat_t s;
    if (load(&t, &s) != 0) { vh_viol("sgp:valid-refused", "valid element set refused\n%s | %s", LINES(&t)); return; }
    int n = 6;
    double ts[6], fz[6][6];
    for (int i = 0; i < n; i++) ts[i] = pick_t(&r);
    double el[9] = {t.ndot, t.nddot, t.bstar, t.incl, t.node, t.ecc, t.argp, t.ma, t.n_read};
    int fdeep = fz_predict(t.epoch, el, ts, n, fz);
    ref_sat rs;
    ref_init(&rs, t.bstar, t.incl, t.node, t.ecc, t.argp, t.ma, t.n_read);
    double period = ref_period_minutes(&rs);
    int deep = (s.flags & DEEP_SPACE_EPHEM_FLAG) != 0;
    if (fabs(period - 225) > 0.01 && deep != (period >= 225)) vh_viol("sgp:model", "period %.3f minutes but deep-space model is %d | %s | %s", period, deep, LINES(&t));
    if (deep != fdeep) deep = fdeep;
    double lat = vh_sym(&r) * 89, lon = vh_sym(&r) * 180, alt = vh_unit(&r) * 3;
    geodetic_t g = {Radians(lat), Radians(lon), alt, 0};
    for (int i = 0; i < n; i++) {
        double o[6], ref[6];
        predict(&s, ts[i], o);
        evals++;
        bool ok = true;
        const double *want = fz[i];
        if (!deep) {
            ok = ref_predict(&rs, ts[i], ref);
            if (!ok) { decayed++; continue; }
            near_n++;
            double d = dist(o, ref), dv = dist(o + 3, ref + 3);
            // both follow the same equations with constants rounded differently; difference grows with time and drag
            // by up to two thousandths of what drag does (constants amplified close to the atmosphere), plus rounding of the mean motion
            double da = fabs(ts[i]) / 1440.0, secular = fabs(rs.no * ts[i] * ts[i] * (rs.t2 + ts[i] * (rs.simple ? 0 : rs.t3 + ts[i] * (rs.t4 + ts[i] * rs.t5)))) * rs.a0 * R_RE;
            double tol = 0.03 + 0.01 * da + 2e-3 * secular;
            // the atmosphere amplifies the difference further for orbits that would not last until then
            bool comparable = rs.a0 * (1 - t.ecc) * R_RE - R_RE > 300 || fabs(ts[i]) < 300;
            if (comparable && d / tol > worst_near) worst_near = d / tol;
            if (comparable && (!(d < tol) || !(dv < tol * 2e-3 + 3e-5))) {
                vh_viol("sgp:near-earth", "t=%.3f min: position off by %.4f km (allowed %.3f), velocity by %.6f km/s | %s | %s", ts[i], d, tol, dv, LINES(&t));
                return;
            }
            want = ref;
            if (!(dist(o, fz[i]) < 0.01 + 1e-6 * secular)) {
                vh_viol("sgp:near-earth", "t=%.3f min: position off by %.4f km from the pinned model | %s | %s", ts[i], dist(o, fz[i]), LINES(&t));
                return;
            }
        } else {
            double rr = sqrt(fz[i][0] * fz[i][0] + fz[i][1] * fz[i][1] + fz[i][2] * fz[i][2]);
            if (!isfinite(rr) || rr < 6300) { decayed++; continue; }
            deep_n++;
            double d = dist(o, fz[i]), dv = dist(o + 3, fz[i] + 3);
            if (d > worst_fz) worst_fz = d;
            if (!(d < 0.05) || !(dv < 1e-4)) {
                vh_viol("sgp:deep-space", "t=%.3f min: position off by %.6f km, velocity by %.8f km/s | %s | %s", ts[i], d, dv, LINES(&t));
                return;
            }
        }
        // observation
        double jd = s.jul_epoch + ts[i] / 1440.0;
        obs_set_t ob;
        Calculate_Obs(jd, &s.pos, &s.vel, &g, &ob);
        double rg, rt;
        ref_range(ref_days_1970_to_epoch(t.epoch) + ts[i] / 1440.0, lat * R_2PI / 360, lon * R_2PI / 360, alt, o, &rg, &rt);
        obs_n++;
        double dr = fabs(rg - ob.range), dt = fabs(rt - ob.range_rate);
        if (rg > 100 && dt > worst_rate) worst_rate = dt;
        if (rg > 100 && (!(dr < 0.05) || !(dt < 1e-4))) {
            vh_viol("sgp:observation", "range %.4f km (expected %.4f), range rate %.6f km/s (expected %.6f), station %.4f %.4f %.3f km, t=%.3f | %s | %s", ob.range, rg, ob.range_rate, rt, lat, lon, alt, ts[i], LINES(&t));
            return;
        }
        (void) want;
    }
    distinct++;
    if (k < 2) vh_sample("%s orbit: %s | %s", deep ? "deep-space" : "near-earth", LINES(&t));
}

// predictions of several satellites interleaved give the same values as alone
static void mix(uint64_t seed, uint64_t k) {
    vh_rng r = vh_seed(seed, k);
    enum { N = 4, T = 6 };
    vtle t[N];
    double ts[T], alone[N][T][6], al_obs[N][T][2];
    for (int i = 0; i < T; i++) ts[i] = pick_t(&r);
    geodetic_t g0 = {Radians(vh_sym(&r) * 80), Radians(vh_sym(&r) * 180), 0.1, 0};
    for (int i = 0; i < N; i++) {
        vtle_make(&r, &t[i], VTLE_ANY);
        sat_t s;
        if (load(&t[i], &s)) return;
        for (int j = 0; j < T; j++) {
            predict(&s, ts[j], alone[i][j]);
            geodetic_t g = g0; obs_set_t ob;
            Calculate_Obs(s.jul_epoch + ts[j] / 1440, &s.pos, &s.vel, &g, &ob);
            al_obs[i][j][0] = ob.range; al_obs[i][j][1] = ob.range_rate;
        }
    }
    sat_t s[N];
    int pos[N] = {0};
    for (int i = 0; i < N; i++) load(&t[i], &s[i]);
    for (int left = N * T; left > 0;) {
        int i = vh_below(&r, N);
        if (pos[i] == T) continue;
        int j = pos[i]++;
        double o[6];
        predict(&s[i], ts[j], o);
        geodetic_t g = g0; obs_set_t ob;
        Calculate_Obs(s[i].jul_epoch + ts[j] / 1440, &s[i].pos, &s[i].vel, &g, &ob);
        left--; evals++;
        for (int c = 0; c < 6; c++)
            if (!(o[c] == alone[i][j][c]) && !(isnan(o[c]) && isnan(alone[i][j][c]))) {
                vh_viol("sgp:interference", "t=%.3f: component %d is %.9g when other satellites are predicted in between, %.9g alone | %s | %s", ts[j], c, o[c], alone[i][j][c], LINES(&t[i]));
                return;
            }
        if (!(ob.range == al_obs[i][j][0] && ob.range_rate == al_obs[i][j][1]) && !isnan(ob.range)) {
            vh_viol("sgp:interference", "t=%.3f: observation differs when other satellites are predicted in between | %s | %s", ts[j], LINES(&t[i]));
            return;
        }
    }
    mixes++; distinct++;
}

// ---- threads
typedef struct { uint64_t seed; int n; double sum; double out[40][6]; } targ;
static void *tmain(void *a) {
    targ *x = a;
    vh_rng r = vh_seed(x->seed, 1);
    int w = 0;
    for (int i = 0; i < x->n; i++) {
        vtle t;
        vtle_make(&r, &t, VTLE_ANY);
        sat_t s;
        if (load(&t, &s)) continue;
        geodetic_t g = {0.5, 0.5, 0.1, 0};
        for (int j = 0; j < 4; j++) {
            double o[6];
            predict(&s, pick_t(&r), o);
            obs_set_t ob;
            Calculate_Obs(s.jul_epoch, &s.pos, &s.vel, &g, &ob);
            struct tm now;
            UTC_Calendar_Now(&now);
            if (now.tm_year < 2020 || now.tm_year > 2200 || now.tm_mon < 1 || now.tm_mon > 12) x->sum = -1;
            if (w < 40) { memcpy(x->out[w], o, sizeof o); x->out[w][5] += ob.range_rate; w++; }
        }
    }
    return NULL;
}
static void threads(uint64_t seed, uint64_t k) {
    enum { N = 4 };
    static targ a[N], b[N];
    pthread_t th[N];
    for (int i = 0; i < N; i++) { memset(&a[i], 0, sizeof a[i]); a[i].seed = seed * 977 + k * 13 + i; a[i].n = 20; b[i] = a[i]; tmain(&b[i]); }
    for (int i = 0; i < N; i++) pthread_create(&th[i], NULL, tmain, &a[i]);
    for (int i = 0; i < N; i++) pthread_join(th[i], NULL);
    for (int i = 0; i < N; i++) {
        if (memcmp(a[i].out, b[i].out, sizeof a[i].out) != 0) {
            int nanonly = 1;
            for (int j = 0; j < 40; j++) for (int c = 0; c < 6; c++) if (a[i].out[j][c] != b[i].out[j][c] && !(isnan(a[i].out[j][c]) && isnan(b[i].out[j][c]))) nanonly = 0;
            if (!nanonly) { vh_viol("sgp:interference", "predictions of a thread differ when others run at the same time (seed %llu)", (unsigned long long) k); return; }
        }
        evals += 80;
        if (a[i].sum < 0) vh_viol("sgp:clock", "calendar time is wrong");
    }
    distinct++;
}

// ---- element sets
static void expect(vtle *t, const char *what, int want) {
    // exactly sized heap copy so that reads outside of the lines are seen
    char (*l)[80] = malloc(240);
    memcpy(l, t->line, 240);
    tle_t *out = calloc(1, sizeof(tle_t));
    int c = Get_Next_Tle_Set(l, out);
    evals++;
    if ((c == 1) != want) vh_viol(want ? "sgp:valid-refused" : "sgp:bad-accepted", "%s: result %d | %s | %s", what, c, LINES(t));
    if (want) accepted++; else refused++;
    free(out); free(l);
}
static void cmp(const char *what, double got, double want, vtle *t) {
    if (!(fabs(got - want) <= 1e-12 * fabs(want) + 1e-300)) vh_viol("sgp:parse", "%s is %.12g, element set states %.12g | %s | %s", what, got, want, LINES(t));
}
static void tle_case(uint64_t seed, uint64_t k) {
    vh_rng r = vh_seed(seed, k);
    vtle t, u;
    vtle_make(&r, &t, VTLE_ANY);
    expect(&t, "valid element set", 1);
    tle_t p;
    memset(&p, 0, sizeof p);
    char l[3][80];
    memcpy(l, t.line, 240);
    if (Get_Next_Tle_Set(l, &p) == 1) {
        cmp("epoch", p.epoch, t.epoch, &t); cmp("ndot", p.xndt2o, t.ndot, &t); cmp("nddot", p.xndd6o, t.nddot, &t); cmp("bstar", p.bstar, t.bstar, &t);
        cmp("inclination", p.xincl, t.incl, &t); cmp("node", p.xnodeo, t.node, &t); cmp("eccentricity", p.eo, t.ecc < 1e-6 ? 1e-6 : t.ecc, &t);
        cmp("argument of perigee", p.omegao, t.argp, &t); cmp("mean anomaly", p.xmo, t.ma, &t);
        if (fabs(p.xno - t.n) > 1.1e-7) cmp("mean motion", p.xno, t.n, &t);
        cmp("satellite number", p.catnr, t.catnr, &t);
        double jd = Julian_Date_of_Epoch(p.epoch), want = ref_days_1970_to_epoch(t.epoch) + 2440587.5;
        if (fabs(jd - want) > 2e-9) vh_viol("sgp:epoch", "Julian date of the epoch %.9f expected %.9f | %s", jd, want, t.line[1]);
    }
    // one digit changed anywhere: checksum
    for (int q = 0; q < 6; q++) {
        u = t;
        int ln = 1 + vh_below(&r, 2), c;
        do c = vh_below(&r, 69); while (u.line[ln][c] < '0' || u.line[ln][c] > '9');
        u.line[ln][c] = '0' + (u.line[ln][c] - '0' + 1 + vh_below(&r, 9)) % 10;
        expect(&u, "one digit changed", 0);
    }
    u = t; { int ln = 1 + vh_below(&r, 2); u.line[ln][68] = " -.A:/\0"[vh_below(&r, 7)]; expect(&u, "checksum isn't a digit", 0); }
    // decimal points out of place
    static const int dots1[] = {23, 34}, dots2[] = {11, 20, 37, 46, 54};
    for (int i = 0; i < 2; i++) { u = t; u.line[1][dots1[i]] = vh_below(&r, 2) ? ' ' : '0'; vtle_checksum(u.line[1]); expect(&u, "decimal point missing in line 1", 0); }
    for (int i = 0; i < 5; i++) { u = t; u.line[2][dots2[i]] = vh_below(&r, 2) ? ' ' : '0'; vtle_checksum(u.line[2]); expect(&u, "decimal point missing in line 2", 0); }
    // fields shifted by a column
    u = t; memmove(u.line[2] + 9, u.line[2] + 8, 59); u.line[2][8] = ' '; vtle_checksum(u.line[2]); expect(&u, "line 2 shifted", 0);
    u = t; memmove(u.line[1] + 19, u.line[1] + 18, 49); u.line[1][18] = ' '; vtle_checksum(u.line[1]); expect(&u, "line 1 shifted", 0);
    // line and satellite numbers
    u = t; memcpy(u.line[1], t.line[2], 80); memcpy(u.line[2], t.line[1], 80); expect(&u, "lines exchanged", 0);
    u = t; memcpy(u.line[2], t.line[1], 80); expect(&u, "first line twice", 0);
    u = t; memcpy(u.line[1], t.line[2], 80); expect(&u, "second line twice", 0);
    u = t; u.line[1][0] = '3'; vtle_checksum(u.line[1]); expect(&u, "line number", 0);
    u = t; u.line[2][0] = '1'; vtle_checksum(u.line[2]); expect(&u, "line number", 0);
    { u = t; int c = 2 + vh_below(&r, 5); u.line[2][c] = '0' + (u.line[2][c] - '0' + 1 + vh_below(&r, 9)) % 10; vtle_checksum(u.line[2]); expect(&u, "satellite numbers differ", 0); }
    // truncated
    { u = t; int ln = 1 + vh_below(&r, 2); memset(u.line[ln] + vh_below(&r, 69), 0, 80 - 69); u.line[ln][vh_below(&r, 69)] = 0; u.line[ln][68] = 0; expect(&u, "truncated", 0); }
    // impossible values
#define BAD(LN, COL, TXT, WHAT) do { u = t; memcpy(u.line[LN] + COL, TXT, strlen(TXT)); vtle_checksum(u.line[LN]); expect(&u, WHAT, 0); } while (0)
    BAD(2, 52, " 0.00000000", "no mean motion");
    BAD(2, 52, "00.00000000", "no mean motion");
    BAD(2, 52, "99.99999999", "mean motion of a hundred revolutions");
    BAD(2, 52, "-1.00000000", "negative mean motion");
    BAD(2, 8, "191.0000", "inclination beyond 180 degrees");
    BAD(2, 8, "999.9999", "inclination beyond 180 degrees");
    BAD(2, 17, "400.0000", "node beyond 360 degrees");
    BAD(2, 34, "999.0000", "argument of perigee beyond 360 degrees");
    BAD(2, 43, "777.0000", "mean anomaly beyond 360 degrees");
    BAD(2, 8, " nan.   ", "inclination isn't a number");
    BAD(2, 43, " inf.   ", "mean anomaly isn't a number");
    distinct++;
}
static void fuzz_case(uint64_t seed, uint64_t k) {
    vh_rng r = vh_seed(seed, k);
    vtle t;
    vtle_make(&r, &t, VTLE_ANY);
    int muts = vh_range(&r, 1, 40), mode = vh_below(&r, 4);
    static const char alphabet[] = "0123456789 .-+eEnNaAiIfFxX&[]PBS\n\r\t";
    if (mode == 0) for (int i = 0; i < 240; i++) ((char *) t.line)[i] = (char) vh_next(&r);
    else if (mode == 1) for (int i = 0; i < 240; i++) ((char *) t.line)[i] = alphabet[vh_below(&r, sizeof alphabet)];
    else for (int i = 0; i < muts; i++) t.line[vh_below(&r, 3)][vh_below(&r, 80)] = mode == 2 ? (char) vh_next(&r) : alphabet[vh_below(&r, sizeof alphabet)];
    if (vh_below(&r, 2)) {
        t.line[1][0] = '1'; t.line[2][0] = '2';
        memcpy(t.line[2] + 2, t.line[1] + 2, 5);
        t.line[1][23] = t.line[1][34] = '.'; t.line[2][11] = t.line[2][20] = t.line[2][37] = t.line[2][46] = t.line[2][54] = '.';
        memcpy(t.line[1] + 61, " 0 ", 3);
        char a = t.line[1][69], b = t.line[2][69];
        vtle_checksum(t.line[1]); vtle_checksum(t.line[2]);
        t.line[1][69] = a; t.line[2][69] = b;
    }
    char (*l)[80] = malloc(240);
    memcpy(l, t.line, 240);
    sat_t *s = calloc(1, sizeof(sat_t));
    vh_case("fuzz seed %llu k %llu", (unsigned long long) seed, (unsigned long long) k);
    int c = Get_Next_Tle_Set(l, &s->tle);
    evals++;
    if (c == 1) {
        accepted++;
        // whatever was accepted must be usable without undefined behaviour
        select_ephemeris(s);
        s->jul_epoch = Julian_Date_of_Epoch(s->tle.epoch);
        for (int i = 0; i < 3; i++) { double o[6]; predict(s, pick_t(&r), o); geodetic_t g = {0.1, 0.2, 0, 0}; obs_set_t ob; Calculate_Obs(s->jul_epoch + i, &s->pos, &s->vel, &g, &ob); }
    } else refused++;
    distinct++;
    free(s); free(l);
}
// published verification vectors of the reference model
static void selftest(void) {
    static const double want[2][7] = {{0, 7022.46529266, -1400.08296755, 0.03995155, 1.893841015, 6.405893759, 4.534807250},
                                      {360, -7154.03120202, -3783.17682504, -3536.19412294, 4.741887409, -4.151817765, -2.093935425}};
    ref_sat s;
    ref_init(&s, 0.28098e-4, 34.2682, 348.7242, 0.1859667, 331.7664, 19.3264, 10.82419157);
    for (int i = 0; i < 2; i++) {
        double o[6];
        if (!ref_predict(&s, want[i][0], o) || dist(o, want[i] + 1) > 0.001 || dist(o + 3, want[i] + 4) > 1e-6) vh_setup_failed("reference model doesn't reproduce the published vectors");
    }
}
int main(int argc, char **argv) {
    selftest();
    const char *mode = argc > 1 ? argv[1] : "near";
    uint64_t seed = vh_arg(argc, argv, 2, 1), from = vh_arg(argc, argv, 3, 0), n = vh_arg(argc, argv, 4, 100);
    for (uint64_t k = from; k < from + n; k++) {
        if (!strcmp(mode, "near")) one_orbit(seed, k, VTLE_LEO);
        else if (!strcmp(mode, "deep")) one_orbit(seed, k, VTLE_DEEP);
        else if (!strcmp(mode, "mix")) mix(seed, k);
        else if (!strcmp(mode, "tle")) tle_case(seed, k);
        else if (!strcmp(mode, "fuzz")) fuzz_case(seed, k);
        else if (!strcmp(mode, "threads")) threads(seed, k);
    }
    fprintf(stderr, "worst near %.6f km, frozen %.6f km, rate %.9f km/s, decayed %ld\n", worst_near, worst_fz, worst_rate, decayed);
    vh_ev("evaluations", evals); vh_ev("distinct", distinct);
    if (near_n) vh_ev("near_earth_predictions", near_n);
    if (deep_n) vh_ev("deep_space_predictions", deep_n);
    if (obs_n) vh_ev("observations", obs_n);
    if (decayed) vh_ev("decayed", decayed);
    if (accepted) vh_ev("element_sets_accepted", accepted);
    if (refused) vh_ev("element_sets_refused", refused);
    if (mixes) vh_ev("interleavings", mixes);
    vh_done();
    return 0;
}
