"""Hostile workload generators."""
import numpy as np

COSMO = {"PLANCK15": (0.3075, -1.0, 0.0, 0.6774), "WMAP5": (0.277, -1.0, 0.0, 0.702),
         "FSPS": (0.27, -1.0, 0.0, 0.72)}


def cosmology(rng):
    if rng.random() < 0.25:
        return list(COSMO.values())[rng.integers(3)]
    w0 = rng.choice([-1.0, rng.uniform(-1.5, -0.5)])
    wa = rng.choice([0.0, rng.uniform(-0.8, 0.4), rng.uniform(-0.8, 0.4), rng.uniform(-2.0, 0.9)])
    if w0 + wa > -0.2:
        wa = -0.2 - w0
    om = rng.uniform(0.1, 0.6)
    if rng.random() < 0.15:
        om = rng.choice([1.0, rng.uniform(0.6, 1.0), rng.uniform(0.05, 0.1)])
    return (float(om), float(w0), float(wa), float(rng.uniform(0.4, 1.1)))


def t_table(rng, n, kind=None):
    kind = kind or rng.choice(["lin", "lin_early", "log", "random", "short"])
    if kind == "lin":
        t = np.linspace(0.1, 13.8, n)
    elif kind == "lin_early":
        t = np.linspace(0.01, rng.uniform(13.0, 14.0), n)
    elif kind == "log":
        t = np.logspace(-2, np.log10(13.8), n)
    elif kind == "short":
        t0 = rng.uniform(0.05, 2.0)
        t = np.linspace(t0, t0 + rng.uniform(1.0, 11.0), n)
    else:
        t = np.sort(rng.uniform(0.02, 13.8, n))
        t = t + np.arange(n) * 1e-3
    return t


SFH_KINDS = ["const", "lognormal", "decline", "rise", "zero", "quenched", "oneburst", "bursty",
             "late", "tiny", "huge", "powerlaw", "step", "alternating", "oldonly", "negative",
             "nearfloor", "wide"]


def sfh(rng, t, kind=None):
    kind = kind or rng.choice(SFH_KINDS)
    n = len(t)
    u = (t - t[0]) / (t[-1] - t[0])
    a = 10 ** rng.uniform(-2, 3)
    if kind == "const":
        s = np.full(n, a)
    elif kind == "lognormal":
        s = a * np.exp(-0.5 * ((np.log(t) - np.log(rng.uniform(0.5, 12))) / rng.uniform(0.1, 1)) ** 2)
    elif kind == "decline":
        s = a * np.exp(-t / rng.uniform(0.1, 5))
    elif kind == "rise":
        s = a * np.exp(t / rng.uniform(0.5, 5))
    elif kind == "zero":
        s = np.zeros(n)
    elif kind == "quenched":
        s = np.where(u < rng.uniform(0.1, 0.9), a, 0.0)
    elif kind == "oneburst":
        s = np.zeros(n)
        s[rng.integers(n)] = a
    elif kind == "bursty":
        s = a * 10 ** rng.normal(0, 1.5, n)
    elif kind == "late":
        s = np.where(u > rng.uniform(0.2, 0.95), a, 0.0)
    elif kind == "tiny":
        s = np.full(n, 10.0 ** rng.uniform(-25, -15))
    elif kind == "huge":
        s = 10 ** rng.uniform(6, 10) * rng.uniform(0.1, 1, n)
    elif kind == "powerlaw":
        s = a * t ** rng.uniform(-3, 3)
    elif kind == "step":
        s = np.where(u > 0.5, a, a * 10 ** rng.uniform(-6, 6))
    elif kind == "alternating":
        s = np.where(np.arange(n) % 2 == 0, a, 0.0)
    elif kind == "oldonly":
        s = np.where(np.arange(n) < max(2, n // 10), a, 1e-3 * a)
    elif kind == "negative":
        s = a * rng.normal(0.5, 1.0, n)       # floored
    elif kind == "nearfloor":
        s = 1e-14 * 10 ** rng.normal(0, 1, n)
    else:
        s = 10 ** rng.uniform(-13, 4, n)
    return np.asarray(s, float), str(kind)


def lg_ages(rng, n, kind=None):
    """log10(age/Gyr) grids (spacing never jumps so much that bins overlap)."""
    kind = kind or rng.choice(["uniform", "jitter", "stretch", "stretch", "coarse", "old"])
    if kind == "uniform":
        return np.linspace(-3.5, 1.15, n)
    if kind == "jitter":
        d = rng.uniform(0.6, 1.4, n - 1)
        g = np.concatenate([[0], np.cumsum(d)])
        return -3.5 + 4.65 * g / g[-1]
    if kind == "stretch":       # uneven, and often ending well inside the age of the Universe
        d = rng.uniform(0.45, 1.7, n - 1)
        g = np.concatenate([[0], np.cumsum(d)])
        lo, hi = rng.uniform(-4, -1.5), rng.uniform(-0.5, 1.2)
        return lo + (hi - lo) * g / g[-1]
    if kind == "coarse":
        return np.linspace(rng.uniform(-4, -2), rng.uniform(1.0, 1.25), n)
    return np.linspace(rng.uniform(-2, -1), 1.2, n)


def lgmets(rng, n, kind=None):
    kind = kind or rng.choice(["uniform", "jitter", "fsps"])
    if kind == "uniform":
        return np.linspace(-4.0, -1.3, n)
    if kind == "fsps" and n <= 22:
        z = np.array([2e-4, 3e-4, 4e-4, 5e-4, 6e-4, 8e-4, 1e-3, 1.2e-3, 1.6e-3, 2e-3, 2.5e-3, 3.1e-3,
                      3.9e-3, 4.9e-3, 6.1e-3, 7.7e-3, 9.6e-3, .012, .015, .019, .024, .03])
        return np.log10(z[-n:])
    d = rng.uniform(0.6, 1.4, n - 1)
    g = np.concatenate([[0], np.cumsum(d)])
    return rng.uniform(-4.5, -3.5) + rng.uniform(1.5, 3) * g / g[-1]


def t_obs(rng, t, lg_age, kind=None):
    """Observation time covered by the table and later than the youngest bin edge allows."""
    young = 10 ** (lg_age[0] - 0.5 * (lg_age[1] - lg_age[0]))
    lo = t[0] + young * 1.5 + 1e-3 * (t[-1] - t[0])
    r = rng.random()
    if r < 0.15:
        return float(t[-1])
    if r < 0.4:
        ok = t[t > lo]
        if len(ok):
            return float(ok[rng.integers(len(ok))])
    if r < 0.5:
        return float(lo + 0.02 * rng.random() * (t[-1] - lo))
    return float(rng.uniform(lo, t[-1]))


def filters(rng, nf, n, lo=2000.0, hi=12000.0, kind=None):
    w, t = [], []
    for _ in range(nf):
        k = kind or rng.choice(["gauss", "tophat", "ragged", "zeropad", "edge"])
        c = rng.uniform(lo, hi)
        d = rng.uniform(100, 1500)
        a = np.linspace(max(c - d, 50.0), c + d, n)
        if k == "gauss":
            b = np.exp(-0.5 * ((a - c) / (d / 3)) ** 2)
        elif k == "tophat":
            b = np.ones(n)
        elif k == "ragged":
            a = np.sort(rng.uniform(max(c - d, 50.0), c + d, n)) + np.arange(n) * 1e-3
            b = rng.uniform(0, 1, n)
        elif k == "zeropad":
            b = np.where(np.abs(a - c) < d / 2, rng.uniform(0.1, 1), 0.0)
        else:
            b = np.linspace(0.01, 1, n)
        w.append(a)
        t.append(b)
    return np.array(w), np.array(t)


def spectrum(rng, wave, kind=None):
    kind = kind or rng.choice(["plaw", "lines", "noise", "break", "flat", "sparse"])
    x = wave / 5000.0
    a = 10 ** rng.uniform(-18, 2)
    if kind == "plaw":
        s = a * x ** rng.uniform(-4, 4)
    elif kind == "lines":
        s = a * (1 + 30 * np.exp(-0.5 * ((wave - rng.choice(wave)) / 30) ** 2))
    elif kind == "noise":
        s = a * 10 ** rng.normal(0, 1, wave.size)
    elif kind == "break":
        s = a * np.where(wave < rng.uniform(3000, 5000), 10 ** -rng.uniform(0.5, 9), 1.0)
    elif kind == "flat":
        s = np.full(wave.size, a)
    else:
        s = a * (rng.random(wave.size) < 0.5)
    return s


def waves(rng, n, lo=100.0, hi=30000.0):
    k = rng.choice(["lin", "log", "rand"])
    if k == "lin":
        return np.linspace(lo, hi, n)
    if k == "log":
        return np.logspace(np.log10(lo), np.log10(hi), n)
    w = np.sort(rng.uniform(lo, hi, n)) + np.arange(n) * 1e-3
    w[0], w[-1] = lo, hi + n * 1e-3
    return w


def ssp_flux(rng, nz, na, wave):
    return np.array([[spectrum(rng, wave) for _ in range(na)] for _ in range(nz)])


def many_redshifts(rng, n, zmax):
    """Long redshift arrays: wide or narrow, in any order, with and without repeats."""
    k = int(rng.integers(5))
    if k == 0:
        z = np.linspace(rng.uniform(0.001, 0.1), rng.uniform(1, zmax), n)
    elif k == 1:
        z = 10 ** rng.uniform(-4, np.log10(zmax), n)
    elif k == 2:
        z = rng.uniform(0.2, 3) + rng.uniform(0, 0.05, n)
    elif k == 3:
        z = np.sort(rng.uniform(0.001, zmax, n))[::-1].copy()
    else:
        z = rng.choice(10 ** rng.uniform(-3, np.log10(zmax), 40), n)
    return z


def special(rng, lo, hi, specials=()):
    """A scalar: special value, boundary, log- or linearly distributed."""
    r = rng.random()
    if specials and r < 0.3:
        return float(specials[rng.integers(len(specials))])
    if r < 0.4:
        return float(rng.choice([lo, hi]))
    if r < 0.6 and lo > 0:
        return float(10 ** rng.uniform(np.log10(lo), np.log10(hi)))
    return float(rng.uniform(lo, hi))


def as_kind(rng, x):
    """The same array as numpy, jax array, or non-contiguous/Fortran-ordered numpy."""
    r = rng.integers(4)
    x = np.asarray(x)
    if r == 1:
        from jax import numpy as jnp
        return jnp.asarray(x)
    if r == 2 and x.ndim == 1:
        y = np.empty(2 * x.size, x.dtype)
        y[::2] = x
        return y[::2]
    if r == 3:
        return np.asfortranarray(x)
    return x
