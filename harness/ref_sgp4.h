// Independent implementation of the near-earth model (structure of Vallado et al., AIAA 2006-6753, without its
// guards for small eccentricities), and of the geometry between a station and a satellite.
#ifndef REF_SGP4_H
#define REF_SGP4_H
#include <math.h>
#include <stdbool.h>
#define R_RE 6378.135
#define R_XKE 0.0743669161
#define R_J2 0.001082616
#define R_J3 (-0.00000253881)
#define R_J4 (-0.00000165597)
#define R_2PI 6.283185307179586
typedef struct {
    double no, ecco, inclo, nodeo, argpo, mo, bstar;
    double aycof, con41, cc1, cc4, cc5, d2, d3, d4, delmo, eta, argpdot, omgcof, sinmao, t2, t3, t4, t5, x1mth2, x7thm1, mdot, nodedot, xlcof, xmcof, nodecf, a0;
    bool simple;
} ref_sat;

static inline double ref_period_minutes(const ref_sat *s) { return R_2PI / s->no; }

static inline void ref_init(ref_sat *s, double bstar, double incl_deg, double node_deg, double ecc, double argp_deg, double ma_deg, double revs_per_day) {
    const double d2r = R_2PI / 360.0, ss = 78.0 / R_RE + 1.0, qzms2t = pow((120.0 - 78.0) / R_RE, 4.0), j3oj2 = R_J3 / R_J2, x2o3 = 2.0 / 3.0;
    s->bstar = bstar; s->inclo = incl_deg * d2r; s->nodeo = node_deg * d2r; s->argpo = argp_deg * d2r; s->mo = ma_deg * d2r;
    s->ecco = ecc < 1e-6 ? 1e-6 : ecc;
    double n = revs_per_day * R_2PI / 1440.0;
    double eccsq = s->ecco * s->ecco, omeosq = 1 - eccsq, rteosq = sqrt(omeosq), cosio = cos(s->inclo), cosio2 = cosio * cosio, sinio = sin(s->inclo);
    double ak = pow(R_XKE / n, x2o3), dd = 0.75 * R_J2 * (3 * cosio2 - 1) / (rteosq * omeosq), del = dd / (ak * ak);
    double adel = ak * (1 - del * del - del * (1.0 / 3.0 + 134.0 * del * del / 81.0));
    del = dd / (adel * adel);
    n = n / (1 + del);
    s->no = n;
    double ao = pow(R_XKE / n, x2o3), po = ao * omeosq, con42 = 1 - 5 * cosio2, con41 = 3 * cosio2 - 1, posq = po * po, rp = ao * (1 - s->ecco);
    s->a0 = ao; s->con41 = con41;
    s->simple = rp < 220.0 / R_RE + 1;
    double sfour = ss, qzms24 = qzms2t, perige = (rp - 1) * R_RE;
    if (perige < 156) {
        sfour = perige < 98 ? 20 : perige - 78;
        qzms24 = pow((120 - sfour) / R_RE, 4);
        sfour = sfour / R_RE + 1;
    }
    double pinvsq = 1 / posq, tsi = 1 / (ao - sfour), eta = ao * s->ecco * tsi, etasq = eta * eta, eeta = s->ecco * eta, psisq = fabs(1 - etasq);
    double coef = qzms24 * pow(tsi, 4), coef1 = coef / pow(psisq, 3.5);
    double cc2 = coef1 * n * (ao * (1 + 1.5 * etasq + eeta * (4 + etasq)) + 0.375 * R_J2 * tsi / psisq * con41 * (8 + 3 * etasq * (8 + etasq)));
    s->eta = eta; s->cc1 = bstar * cc2;
    double cc3 = -2 * coef * tsi * j3oj2 * n * sinio / s->ecco;
    s->x1mth2 = 1 - cosio2;
    s->cc4 = 2 * n * coef1 * ao * omeosq * (eta * (2 + 0.5 * etasq) + s->ecco * (0.5 + 2 * etasq) -
             R_J2 * tsi / (ao * psisq) * (-3 * con41 * (1 - 2 * eeta + etasq * (1.5 - 0.5 * eeta)) +
             0.75 * s->x1mth2 * (2 * etasq - eeta * (1 + etasq)) * cos(2 * s->argpo)));
    s->cc5 = 2 * coef1 * ao * omeosq * (1 + 2.75 * (etasq + eeta) + eeta * etasq);
    double cosio4 = cosio2 * cosio2, temp1 = 1.5 * R_J2 * pinvsq * n, temp2 = 0.5 * temp1 * R_J2 * pinvsq, temp3 = -0.46875 * R_J4 * pinvsq * pinvsq * n;
    s->mdot = n + 0.5 * temp1 * rteosq * con41 + 0.0625 * temp2 * rteosq * (13 - 78 * cosio2 + 137 * cosio4);
    s->argpdot = -0.5 * temp1 * con42 + 0.0625 * temp2 * (7 - 114 * cosio2 + 395 * cosio4) + temp3 * (3 - 36 * cosio2 + 49 * cosio4);
    double xhdot1 = -temp1 * cosio;
    s->nodedot = xhdot1 + (0.5 * temp2 * (4 - 19 * cosio2) + 2 * temp3 * (3 - 7 * cosio2)) * cosio;
    s->omgcof = bstar * cc3 * cos(s->argpo);
    s->xmcof = -x2o3 * coef * bstar / eeta;
    s->nodecf = 3.5 * omeosq * xhdot1 * s->cc1;
    s->t2 = 1.5 * s->cc1;
    s->xlcof = -0.25 * j3oj2 * sinio * (3 + 5 * cosio) / (1 + cosio);
    s->aycof = -0.5 * j3oj2 * sinio;
    s->delmo = pow(1 + eta * cos(s->mo), 3); s->sinmao = sin(s->mo); s->x7thm1 = 7 * cosio2 - 1;
    double cc1sq = s->cc1 * s->cc1;
    s->d2 = 4 * ao * tsi * cc1sq;
    double temp = s->d2 * tsi * s->cc1 / 3;
    s->d3 = (17 * ao + sfour) * temp;
    s->d4 = 0.5 * temp * ao * tsi * (221 * ao + 31 * sfour) * s->cc1;
    s->t3 = s->d2 + 2 * cc1sq;
    s->t4 = 0.25 * (3 * s->d3 + s->cc1 * (12 * s->d2 + 10 * cc1sq));
    s->t5 = 0.2 * (3 * s->d4 + 12 * s->cc1 * s->d3 + 6 * s->d2 * s->d2 + 15 * cc1sq * (2 * s->d2 + cc1sq));
}

// false: the orbit has decayed (or left the domain of the model)
static inline bool ref_predict(const ref_sat *s, double t, double *o) {
    double xmdf = s->mo + s->mdot * t, argpdf = s->argpo + s->argpdot * t, nodedf = s->nodeo + s->nodedot * t;
    double argpm = argpdf, mm = xmdf, t2 = t * t, nodem = nodedf + s->nodecf * t2, tempa = 1 - s->cc1 * t, tempe = s->bstar * s->cc4 * t, templ = s->t2 * t2;
    if (!s->simple) {
        double delm = s->xmcof * (pow(1 + s->eta * cos(xmdf), 3) - s->delmo), temp = s->omgcof * t + delm;
        mm = xmdf + temp; argpm = argpdf - temp;
        double t3 = t2 * t, t4 = t3 * t;
        tempa = tempa - s->d2 * t2 - s->d3 * t3 - s->d4 * t4;
        tempe = tempe + s->bstar * s->cc5 * (sin(mm) - s->sinmao);
        templ = templ + s->t3 * t3 + t4 * (s->t4 + t * s->t5);
    }
    double am = s->a0 * tempa * tempa, em = s->ecco - tempe, nm = R_XKE / pow(am, 1.5);
    if (!(tempa > 0.3) || !(fabs(em) < 0.95) || !(am > 0.95)) return false;
    mm += s->no * templ;
    double xlm = mm + argpm + nodem;
    double axnl = em * cos(argpm), temp = 1 / (am * (1 - em * em)), aynl = em * sin(argpm) + temp * s->aycof, xl = xlm + temp * s->xlcof * axnl;
    double u = fmod(xl - nodem, R_2PI), eo1 = u, sineo1 = 0, coseo1 = 0;
    for (int k = 0; k < 30; k++) {
        sineo1 = sin(eo1); coseo1 = cos(eo1);
        double d = (u - aynl * coseo1 + axnl * sineo1 - eo1) / (1 - coseo1 * axnl - sineo1 * aynl);
        if (fabs(d) > 0.95) d = d > 0 ? 0.95 : -0.95;
        eo1 += d;
        if (fabs(d) < 1e-12) break;
    }
    sineo1 = sin(eo1); coseo1 = cos(eo1);
    double ecose = axnl * coseo1 + aynl * sineo1, esine = axnl * sineo1 - aynl * coseo1, el2 = axnl * axnl + aynl * aynl, pl = am * (1 - el2);
    if (!(pl > 0)) return false;
    double rl = am * (1 - ecose), rdotl = sqrt(am) * esine / rl, rvdotl = sqrt(pl) / rl, betal = sqrt(1 - el2);
    temp = esine / (1 + betal);
    double sinu = am / rl * (sineo1 - aynl - axnl * temp), cosu = am / rl * (coseo1 - axnl + aynl * temp), su = atan2(sinu, cosu), sin2u = 2 * cosu * sinu, cos2u = 1 - 2 * sinu * sinu;
    temp = 1 / pl;
    double temp1 = 0.5 * R_J2 * temp, temp2 = temp1 * temp, cosip = cos(s->inclo), sinip = sin(s->inclo);
    double mrt = rl * (1 - 1.5 * temp2 * betal * s->con41) + 0.5 * temp1 * s->x1mth2 * cos2u;
    su -= 0.25 * temp2 * s->x7thm1 * sin2u;
    double xnode = nodem + 1.5 * temp2 * cosip * sin2u, xinc = s->inclo + 1.5 * temp2 * cosip * sinip * cos2u;
    double mvt = rdotl - nm * temp1 * s->x1mth2 * sin2u / R_XKE, rvdot = rvdotl + nm * temp1 * (s->x1mth2 * cos2u + 1.5 * s->con41) / R_XKE;
    double ssu = sin(su), csu = cos(su), sno = sin(xnode), cno = cos(xnode), si = sin(xinc), ci = cos(xinc);
    double xmx = -sno * ci, xmy = cno * ci;
    double ux = xmx * ssu + cno * csu, uy = xmy * ssu + sno * csu, uz = si * ssu, vx = xmx * csu - cno * ssu, vy = xmy * csu - sno * ssu, vz = si * csu;
    double vk = R_RE * R_XKE / 60;
    o[0] = mrt * ux * R_RE; o[1] = mrt * uy * R_RE; o[2] = mrt * uz * R_RE;
    o[3] = (mvt * ux + rvdot * vx) * vk; o[4] = (mvt * uy + rvdot * vy) * vk; o[5] = (mvt * uz + rvdot * vz) * vk;
    return mrt > 1.0;
}

static inline double ref_days_1970_to_epoch(double tle_epoch) { // days from 1970-01-01 to the epoch of an element set
    int yy = (int) (tle_epoch / 1000);
    double day = tle_epoch - yy * 1000.0;
    int year = yy < 57 ? 2000 + yy : 1900 + yy;
    long days = 0;
    if (year >= 1970) for (int y = 1970; y < year; y++) days += (y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 366 : 365;
    else for (int y = year; y < 1970; y++) days -= (y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 366 : 365;
    return days + day - 1.0;
}
static inline double ref_gmst(double days1970) { // IAU 1982
    double jd = days1970 + 2440587.5, jd0 = floor(jd - 0.5) + 0.5, ut = (days1970 + 0.5 - 0.5) - floor(days1970);
    double tu = (jd0 - 2451545.0) / 36525.0;
    double g = 24110.54841 + tu * (8640184.812866 + tu * (0.093104 - tu * 6.2e-6)) + 86400.0 * 1.00273790934 * ut;
    g = fmod(g, 86400.0);
    if (g < 0) g += 86400.0;
    return g * R_2PI / 86400.0;
}
static inline void ref_range(double days1970, double lat, double lon, double alt, const double *pv, double *range, double *rate) {
    const double f = 1 / 298.26, w = 7.292115e-5;
    double th = ref_gmst(days1970) + lon, e2 = f * (2 - f), nn = R_RE / sqrt(1 - e2 * sin(lat) * sin(lat));
    double rho = (nn + alt) * cos(lat), z = (nn * (1 - e2) + alt) * sin(lat);
    double px = rho * cos(th), py = rho * sin(th);
    double dx = pv[0] - px, dy = pv[1] - py, dz = pv[2] - z, dvx = pv[3] + w * py, dvy = pv[4] - w * px, dvz = pv[5];
    *range = sqrt(dx * dx + dy * dy + dz * dz);
    *rate = (dx * dvx + dy * dvy + dz * dvz) / *range;
}
#endif
