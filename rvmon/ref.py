"""Independent reference models (numpy/scipy, float64), written from the definitions."""
import functools
import math

import numpy as np
from scipy import integrate

SFR_MIN = 1e-14
T_BIRTH_MIN = 0.001
AB0 = 1.13492e-13
L_SUN_CGS = 3.828e33


# ------------------------------------------------------------------ quadrature
def trap_steps(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return 0.5 * (x[1:] - x[:-1]) * (y[1:] + y[:-1])


def trapz(x, y):
    return math.fsum(trap_steps(x, y))


def cumtrapz(x, y):
    out = np.zeros(len(x))
    st = trap_steps(x, y)
    s = np.longdouble(0)
    for i, d in enumerate(st):
        s += np.longdouble(d)
        out[i + 1] = float(s)
    return out


def mstar_formed(t, sfr):
    t = np.concatenate([[T_BIRTH_MIN], np.asarray(t, float)])
    s = np.concatenate([[SFR_MIN], np.asarray(sfr, float)])
    return cumtrapz(t, s)[1:] * 1e9


def interp_clamped(x, xp, fp):
    """Piecewise-linear interpolation, constant outside."""
    xp, fp = np.asarray(xp, float), np.asarray(fp, float)
    out = []
    for v in np.atleast_1d(np.asarray(x, float)):
        if v <= xp[0]:
            out.append(fp[0])
        elif v >= xp[-1]:
            out.append(fp[-1])
        else:
            j = int(np.searchsorted(xp, v, side="right")) - 1
            d = xp[j + 1] - xp[j]
            out.append(fp[j] + (fp[j + 1] - fp[j]) * ((v - xp[j]) / d))
    return np.array(out)


def interp_zero(x, xp, fp):
    """Piecewise-linear interpolation, zero outside."""
    x = np.asarray(x, float)
    out = np.interp(x, xp, fp)
    out[(x < xp[0]) | (x > xp[-1])] = 0.0
    return out


# ------------------------------------------------------------------ SSP weights
def widths(m):
    m = np.asarray(m, float)
    n = len(m)
    w = np.zeros(n)
    for i in range(1, n - 1):
        w[i] = 0.5 * (m[i + 1] - m[i - 1])
    w[0] = m[1] - m[0]
    w[-1] = 0.5 * (m[-1] - m[-2]) + 0.25 * (m[-1] - m[-3])
    return w


def bin_edges(m, lo, hi):
    m = np.asarray(m, float)
    e = np.empty(len(m) + 1)
    e[:-1] = m - 0.5 * widths(m)
    e[0], e[-1] = lo, hi
    return e


def age_edges(lg):
    lg = np.asarray(lg, float)
    return bin_edges(lg, lg[0] - 0.5 * (lg[1] - lg[0]), lg[-1] + 0.5 * widths(lg)[-1])


def log_mass_table(t, sfr, sfr_min=SFR_MIN):
    return np.log10(mstar_formed(t, np.maximum(np.asarray(sfr, float), sfr_min)))


def age_weights(t, sfr, lg_age, t_obs, sfr_min=SFR_MIN):
    """(weights, resolved fraction of the mass that lies inside the age bins)"""
    lgm = log_mass_table(t, sfr, sfr_min)
    tb = np.maximum(t_obs - 10.0 ** age_edges(lg_age), T_BIRTH_MIN)
    m = 10.0 ** interp_clamped(np.log10(tb), np.log10(t), lgm)
    dm = m[:-1] - m[1:]
    tot = dm.sum()
    return dm / tot, tot / m.max()


def mstar_at(t, sfr, t_obs, sfr_min=SFR_MIN):
    return 10.0 ** interp_clamped(np.log10(t_obs), np.log10(t), log_mass_table(t, sfr, sfr_min))[0]


def tw_cdf(z):
    z = np.clip(np.asarray(z, float), -3, 3)
    u = z / 3.0
    # integral of (35/32)(1-u^2)^3 from -1
    return 0.5 + (35.0 / 32.0) * (u - u**3 + 0.6 * u**5 - u**7 / 7.0)


def tw_pdf(x, m, h):
    u = (np.asarray(x, float) - m) / (3.0 * h)
    return np.where(np.abs(u) <= 1, (35.0 / 96.0) * (1 - u * u) ** 3 / h, 0.0)


def met_weights(lgmet, scatter, ssp_lgmet, lo=-10.0, hi=10.0):
    e = bin_edges(ssp_lgmet, lo, hi)
    c = tw_cdf((lgmet - e) / scatter)   # mass above edge e
    w = c[:-1] - c[1:]
    if w.sum() == 0:
        if lgmet < e[0]:
            w[0] = 1.0
        elif lgmet > e[-1]:
            w[-1] = 1.0
        return w
    return w / w.sum()


def met_table_weights(t, lgmet_table, scatter, ssp_lgmet, lg_age, t_obs):
    tb = np.maximum(t_obs - 10.0 ** np.asarray(lg_age, float), T_BIRTH_MIN)
    z = interp_clamped(np.log10(tb), np.log10(t), lgmet_table)
    return np.array([met_weights(v, scatter, ssp_lgmet) for v in z]).T / len(z), z


# ------------------------------------------------------------------ cosmology
def rho_de(z, w0, wa):
    a = 1.0 / (1.0 + z)
    return a ** (-3.0 * (1.0 + w0 + wa)) * np.exp(-3.0 * wa * (1.0 - a))


def E(z, Om0, w0, wa):
    return np.sqrt(Om0 * (1.0 + z) ** 3 + (1.0 - Om0) * rho_de(z, w0, wa))


C_KMS = 299792.458
MPC_KM = 3.08567758149e19
GYR_S = 31556925.2e9


def _gl(f, a, b, n=24, pieces=40):
    x, w = _leg(n)
    edges = np.linspace(a, b, pieces + 1)
    tot = 0.0
    for lo, hi in zip(edges[:-1], edges[1:]):
        m, h = 0.5 * (lo + hi), 0.5 * (hi - lo)
        tot += h * float(np.dot(w, f(m + h * x)))
    return tot


@functools.lru_cache(None)
def _leg(n):
    return np.polynomial.legendre.leggauss(n)


def comoving_distance(z, Om0, w0, wa, h):
    if z == 0:
        return 0.0
    # u = ln(1+z): dz = e^u du
    f = lambda u: np.exp(u) / E(np.exp(u) - 1.0, Om0, w0, wa)
    return C_KMS / (100.0 * h) * _gl(f, 0.0, math.log1p(z))


def hubble_time(h):
    return MPC_KM / (100.0 * h) / GYR_S


def lookback(z, Om0, w0, wa, h):
    f = lambda u: 1.0 / E(np.exp(u) - 1.0, Om0, w0, wa)
    return hubble_time(h) * _gl(f, 0.0, math.log1p(z))


def age0(Om0, w0, wa, h, zmax=None):
    f = lambda u: 1.0 / E(np.exp(u) - 1.0, Om0, w0, wa)
    top = math.log1p(zmax) if zmax else 40.0
    return hubble_time(h) * _gl(f, 0.0, top, pieces=160)


# ------------------------------------------------------------------ photometry
def filter_integral(wave, lum, fw, ft, z=0.0):
    l = interp_zero(fw, np.asarray(wave, float) * (1.0 + z), lum)
    return trapz(fw, ft * l / fw)


def ab_flux(wave, lum, fw, ft, z=0.0):
    return filter_integral(wave, lum, fw, ft, z) / trapz(fw, np.asarray(ft, float) * AB0 / fw)


# ------------------------------------------------------------------ dust
RV = 4.05


def calzetti(w):
    w = np.asarray(w, float)
    y = 1.0 / w
    a = 2.659 * (-2.156 + 1.509 / w - 0.198 / w**2 + 0.011 / w**3) + RV
    b = 2.659 * (-1.857 + 1.040 / w) + RV
    return np.where(w < 0.63, a, b)


def leitherer(w):
    w = np.asarray(w, float)
    return 5.472 + 0.671 / w - 9.218e-3 / w**2 + 2.620e-3 / w**3


def l02c00(w, xc=0.15):
    w = np.asarray(w, float)
    return np.where(w > xc, calzetti(w), leitherer(w))


def drude(w, x0, g, a):
    w = np.asarray(w, float)
    return a * (w * g) ** 2 / ((w**2 - x0**2) ** 2 + (w * g) ** 2)


def noll(w, eb, d, x0=0.2175, g=0.0350):
    return np.maximum((l02c00(w) + drude(w, x0, g, eb)) * (np.asarray(w, float) / 0.55) ** d, 0.0)


def salim(w, eb, d, x0=0.2175, g=0.0350):
    return np.maximum(l02c00(w) * (np.asarray(w, float) / 0.55) ** d + drude(w, x0, g, eb), 0.0)


def tw_sigmoid(x, x0, h, lo, hi):
    return lo + (hi - lo) * tw_cdf((np.asarray(x, float) - x0) / h)


def tw_k(w, xtp=-1.0, ytp=1.15, x0=0.5, h=0.5, lo=-0.65, hi=-1.95):
    x = np.log10(w)
    return 10.0 ** (ytp + tw_sigmoid(x, x0, h, lo, hi) * (x - xtp))


H, K, C = 6.62607015e-34, 1.380649e-23, 299792458.0
LSUN_W = 3.828e26


def planck_nu(nu, T):
    """Lsun/Hz/sr/m^2, evaluated in logs so the Wien tail is exact."""
    nu = np.asarray(nu, float)
    x = H * nu / (K * T)
    with np.errstate(over="ignore", under="ignore"):
        return 2 * H * nu * (nu / C) ** 2 * np.exp(-x) / -np.expm1(-x) / LSUN_W


def planck_aa(w, T):
    """Lsun/AA/sr/m^2"""
    m = np.asarray(w, float) * 1e-10
    x = H * C / (m * K * T)
    with np.errstate(over="ignore", under="ignore"):
        return 2 * H * C**2 / m**5 * np.exp(-x) / -np.expm1(-x) / LSUN_W * 1e-10


# ------------------------------------------------------------------ sigmoids, IMF, MZR
def sigmoid(x, x0, k, lo, hi):
    a = np.asarray(k * (np.asarray(x, float) - x0), float)
    with np.errstate(over="ignore"):
        s = np.where(a >= 0, 1.0 / (1.0 + np.exp(-np.abs(a))),
                     np.exp(-np.abs(a)) / (1.0 + np.exp(-np.abs(a))))
    return lo + (hi - lo) * s


def sig_slope(x, xtp, ytp, x0, k, lo, hi):
    return ytp + sigmoid(x, x0, k, lo, hi) * (np.asarray(x, float) - xtp)


SURV = dict(
    DEFAULT=dict(a=0.225, b=8.0, lgk1=-0.5, d=0.145, e=0.08, f=6.5, lgk2=0.7, h=0.005),
    SALPETER=dict(a=0.13, b=8.0, lgk1=-0.5, d=0.055, e=0.08, f=6.5, lgk2=0.7, h=0.005),
    CHABRIER=dict(a=0.225, b=8.0, lgk1=-0.5, d=0.145, e=0.08, f=6.5, lgk2=0.7, h=0.005),
    KROUPA=dict(a=0.211, b=8.0, lgk1=-0.5, d=0.13, e=0.08, f=6.5, lgk2=0.7, h=0.005),
    VAN_DOKKUM=dict(a=0.238, b=8.0, lgk1=-0.5, d=0.156, e=0.08, f=6.5, lgk2=0.7, h=0.005))
REMN = {k: dict(a=a, b=7, lgk1=1, d=1.3, e=0.2) for k, a in dict(
    DEFAULT=-1.42, SALPETER=-1.67, CHABRIER=-1.42, KROUPA=-1.45, VAN_DOKKUM=-1.4).items()}


def returned(x, a, b, lgk1, d, e, f, lgk2, h):
    z = sig_slope(x, b, a, b, 10.0**lgk1, d, e)
    return sigmoid(x, f, 10.0**lgk2, h, z)


def remnant(x, a, b, lgk1, d, e):
    return 10.0 ** sig_slope(x, b, a, b, 10.0**lgk1, d, e)


LGZSUN = math.log10(0.012)
MZR_T0 = dict(ytp=0.05, x0=10.5, k=1.0, lo=0.4, hi=0.1)
MZR_EV = dict(c0y=-1.455, c1y=0.13, c0s=-0.959, c1s=0.067242)


def mzr_t0(m, ytp, x0, k, lo, hi, xtp=10.5):
    return sig_slope(m, xtp, ytp, x0, k, lo, hi) + LGZSUN


def mzr_evol(m, t, c0y, c1y, c0s, c1s, tc=8.44):
    tl = np.maximum(12.5 - np.asarray(t, float), 0.0)
    y = c0y + c1y * np.asarray(m, float)
    early = c0s + c1s * np.asarray(m, float)
    return np.minimum(sig_slope(tl, tc, y, tc, 1.6, y / tc, early), 0.0)


# ------------------------------------------------------------------ equivalent width
def ew(wave, flux, lo, mid, hi, c1, c2, c3, c4):
    wave, flux = np.asarray(wave, float), np.asarray(flux, float)
    m = ((wave >= c1) & (wave <= c2)) | ((wave >= c3) & (wave <= c4))
    x0 = 0.5 * (c1 + c4)
    s = 0.5 * (c4 - c1)
    q = np.polynomial.polynomial.polyfit((wave[m] - x0) / s, flux[m], 2)
    cont = lambda w: np.polynomial.polynomial.polyval((np.asarray(w, float) - x0) / s, q)
    im = (wave >= lo) & (wave <= hi)
    tot = trapz(wave, np.where(im, flux, 0.0)) - trapz(wave, np.where(im, cont(wave), 0.0))
    return tot / float(cont(mid)), tot, float(cont(mid)), cont


# ------------------------------------------------------------------ bursts
def burst(lgyr, peak, mx):
    h = (mx - peak) / 3.0
    w = tw_pdf(lgyr, peak, h)
    s = w.sum()
    return w / s if s > 0 else w
