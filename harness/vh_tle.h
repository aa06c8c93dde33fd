// Generator of two-line element sets with the exact values they state.
#ifndef VH_TLE_H
#define VH_TLE_H
#include "vh.h"
typedef struct {
    double epoch, ndot, nddot, bstar, incl, node, ecc, argp, ma, n, n_read; // as written
    int catnr, elset, revnum;
    char line[3][80];
} vtle;

static inline void vtle_checksum(char *l) {
    int s = 0;
    for (int i = 0; i < 68; i++) s += l[i] >= '0' && l[i] <= '9' ? l[i] - '0' : l[i] == '-' ? 1 : 0;
    l[68] = '0' + s % 10; l[69] = 0;
}
static inline void vtle_exp(char *out, double *v, int mant, int ex, int neg) { // " 12345-6"
    sprintf(out, "%c%05d%c%d", neg ? '-' : ' ', mant, ex < 0 ? '-' : (ex == 0 && (mant & 1) ? '-' : '+'), ex < 0 ? -ex : ex);
    char t[32];
    sprintf(t, "%s0.%05de%d", neg ? "-" : "", mant, ex);
    *v = strtod(t, NULL);
}
// fills the lines from the values; values are rounded to what the format can hold
static inline void vtle_format(vtle *t, int bm, int be, int bneg, int dm, int de, int dneg) {
    char ep[32], nd[32], bs[16], nn[16], ecc[16], b[32];
    snprintf(ep, sizeof ep, "%014.8f", t->epoch); t->epoch = strtod(ep, NULL);
    snprintf(nd, sizeof nd, "%.8f", fabs(t->ndot));
    char *dot = strchr(nd, '.');
    char ndf[16]; snprintf(ndf, sizeof ndf, "%c%.9s", t->ndot < 0 ? '-' : ' ', dot);
    t->ndot = strtod(ndf[0] == '-' ? ndf : ndf + 1, NULL);
    vtle_exp(nn, &t->nddot, dm, de, dneg);
    vtle_exp(bs, &t->bstar, bm, be, bneg);
    snprintf(t->line[1], 80, "1 %05dU 19038W   %s %s %s %s 0 %4d0", t->catnr, ep, ndf, nn, bs, t->elset);
    snprintf(ecc, sizeof ecc, "%07d", (int) (t->ecc * 1e7 + 0.5) > 9999999 ? 9999999 : (int) (t->ecc * 1e7 + 0.5));
    snprintf(b, sizeof b, "0.%s", ecc); t->ecc = strtod(b, NULL);
    char in[16], no[16], ar[16], ma[16], mm[16];
    snprintf(in, 16, "%8.4f", t->incl); t->incl = strtod(in, NULL);
    snprintf(no, 16, "%8.4f", t->node); t->node = strtod(no, NULL);
    snprintf(ar, 16, "%8.4f", t->argp); t->argp = strtod(ar, NULL);
    snprintf(ma, 16, "%8.4f", t->ma); t->ma = strtod(ma, NULL);
    snprintf(mm, 16, "%11.8f", t->n);
    char m10[16]; memcpy(m10, mm, 10); m10[10] = 0; 
    t->n = strtod(mm, NULL); t->n_read = strtod(m10, NULL); // the eighth decimal isn't read (a few metres per day)
    snprintf(t->line[2], 80, "2 %05d %s %s %s %s %s %s%5d0", t->catnr, in, no, ecc, ar, ma, mm, t->revnum);
    // the day of the year might be padded with blanks
    if (t->catnr % 3 == 0) for (int i = 20; i < 22 && t->line[1][i] == '0'; i++) t->line[1][i] = ' ';
    vtle_checksum(t->line[1]); vtle_checksum(t->line[2]);
}
enum { VTLE_LEO, VTLE_DEEP, VTLE_ANY };
static inline void vtle_make(vh_rng *r, vtle *t, int kind) {
    memset(t, 0, sizeof *t);
    static const char *names[] = {"LUCKY-7", "ISS (ZARYA)", "A", "0123456789012345678901234", "SAT & CO [+]", "X [P]", "NAME WITH SPACES   ", ""};
    strcpy(t->line[0], names[vh_below(r, 8)]);
    t->catnr = vh_range(r, 1, 99999); t->elset = vh_range(r, 0, 9999); t->revnum = vh_range(r, 0, 99999);
    int yy = vh_below(r, 4) ? vh_range(r, 10, 40) : vh_range(r, 0, 99);
    int full = yy < 57 ? 2000 + yy : 1900 + yy;
    int days = (full % 4 == 0 && (full % 100 != 0 || full % 400 == 0)) ? 366 : 365;
    t->epoch = yy * 1000 + vh_range(r, 1, vh_below(r, 4) ? days : vh_below(r, 2) ? 99 : 9) + floor(vh_unit(r) * 1e8) / 1e8;
    t->incl = vh_below(r, 8) ? vh_unit(r) * 178 + 1 : (vh_below(r, 2) ? 98.0 : 51.6);
    t->node = vh_unit(r) * 359.9999; t->argp = vh_unit(r) * 359.9999; t->ma = vh_unit(r) * 359.9999;
    int leo = kind == VTLE_LEO || (kind == VTLE_ANY && vh_below(r, 3));
    if (leo) {
        // perigee between 60 and 2000 km, apogee so that the period stays below 225 minutes
        double hp = vh_below(r, 6) ? 250 + vh_unit(r) * 1500 : vh_below(r, 2) ? 165 + vh_unit(r) * 80 : 60 + vh_unit(r) * 110;
        double e = vh_below(r, 4) ? vh_unit(r) * 0.03 : vh_unit(r) * 0.3;
        if (!vh_below(r, 8)) e = 1e-7 * vh_range(r, 10, 5000);
        double a = (6378.135 + hp) / (1 - e);
        if (a > 11500) { a = 11500; e = 1 - (6378.135 + hp) / a; }
        t->ecc = e; t->n = 86400.0 / (2 * M_PI) * sqrt(398600.8 / (a * a * a));
    } else {
        switch (vh_below(r, 5)) {
            case 0: t->n = 1.0027 + vh_sym(r) * 0.002; t->ecc = vh_unit(r) * 0.01; if (vh_below(r, 2)) t->incl = vh_unit(r) * 8 + 0.01; break;   // synchronous
            case 1: t->n = 2.0057 + vh_sym(r) * 0.01; t->ecc = 0.5 + vh_unit(r) * 0.25; t->incl = 60 + vh_unit(r) * 8; break; // 12 hours, eccentric
            case 2: t->n = 2.0057 + vh_sym(r) * 0.02; t->ecc = vh_unit(r) * 0.02; break;  // navigation
            case 3: t->n = 2.1 + vh_unit(r) * 0.3; t->ecc = 0.6 + vh_unit(r) * 0.13; break;   // transfer
            default: t->n = 0.3 + vh_unit(r) * 5.5; { double a = pow(398600.8 / pow(t->n * 2 * M_PI / 86400, 2), 1 / 3.0); double em = 1 - 6800 / a; t->ecc = vh_unit(r) * (em < 0.9 ? em : 0.9); }
        }
        double a = pow(398600.8 / pow(t->n * 2 * M_PI / 86400, 2), 1 / 3.0);
        if (a * (1 - t->ecc) < 6700) t->ecc = 1 - 6700 / a;
    }
    t->ndot = (vh_below(r, 4) ? 1e-4 : 1e-2) * vh_sym(r);
    int bm = vh_below(r, 10) ? vh_range(r, 10000, 99999) : 0, be = leo ? -vh_range(r, 3, 7) : -vh_range(r, 3, 8), bneg = !vh_below(r, 6);
    int dm = vh_below(r, 3) ? 0 : vh_range(r, 10000, 99999), de = vh_below(r, 2) ? -vh_range(r, 1, 9) : 0;
    vtle_format(t, bm, be, bneg, dm, dm ? de : 0, !vh_below(r, 4));
}
#endif
