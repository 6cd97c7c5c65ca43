"""C11 ages, lookback, critical density, virial time."""
import numpy as np

from .. import gen, ref

RULE = ("Redshifts 0..100 in log and linear steps, cosmologies as in C10, scalar and array calls; reference: "
        "composite Gauss-Legendre quadrature; Bryan-Norman overdensity re-derived.")
REQUIRED = {"lookback-reference": 100, "age0-reference": 50, "age-is-age0-minus-lookback": 100, "age-positive": 100,
            "age-decreases": 20, "rho-crit": 100, "virial": 100, "virial-scalar": 50, "h-scaling": 50, "today": 2}
ASSUMPTIONS = ["0 <= z <= 100; w0+wa < 0; the age at z=0 omits the first ~0.5 Myr (z>999)"]


def workload(R):
    from dsps.cosmology import flat_wcdm as fw
    import dsps.cosmology as C
    cd = gen.COSMO["PLANCK15"]
    t = np.asarray(C.TODAY)
    R.eq("today", t, np.asarray(fw.age_at_z0(*cd)), rtol=1e-13)
    R.ok("today", t.dtype == np.float64, dtype=str(t.dtype))
    R.eq("today", t, ref.age0(*cd), rtol=2e-4)
    for c in R.cases("scalar", 160, 2500):
        with c:
            r = c.rng
            z = gen.special(r, 1e-5, 100.0, (0.0, 0.1, 1.0, 3.0, 10.0, 60.0))
            cp = gen.cosmology(r)
            info = dict(z=z, cosmo=cp)
            lb = float(R.call("lookback_to_z", fw.lookback_to_z, z, *cp))
            a0 = float(R.call("age_at_z0", fw.age_at_z0, *cp))
            az = R.call("age_at_z", fw.age_at_z, z, *cp)
            R.ok("age-shape", az.shape == (1,), shape=az.shape)
            az = float(az[0])
            R.eq("lookback-reference", lb, ref.lookback(z, *cp), rtol=2e-4, **info)
            R.eq("age0-reference", a0, ref.age0(*cp), rtol=4e-4, **info)
            R.eq("age-is-age0-minus-lookback", az, a0 - lb, rtol=1e-10, atol=1e-12, **info)
            R.ok("age-positive", az > 0, az=az, **info)
            if z < 30:
                R.eq("age-reference", az, ref.age0(*cp) - ref.lookback(z, *cp), rtol=2e-2 if z > 5 else 2e-3, **info)
            R.stat("lookback-rel-error", abs(lb / ref.lookback(z, *cp) - 1) if z > 0 else 0)
            k = r.uniform(0.5, 2)
            cq = cp[:3] + (cp[3] * k,)
            R.eq("h-scaling", R.call("lookback_to_z", fw.lookback_to_z, z, *cq), lb / k, rtol=1e-9, atol=1e-15, **info)
            R.eq("h-scaling", R.call("age_at_z0", fw.age_at_z0, *cq), a0 / k, rtol=1e-10, **info)
            rc = R.call("rho_crit", fw.rho_crit, z, *cp)
            # 3 H^2 / 8 pi G in Msun/kpc^3 : 277.536627 h^2 E^2
            R.eq("rho-crit", rc, 277.536627 * cp[3] ** 2 * ref.E(z, *cp[:3]) ** 2, rtol=1e-10, **info)
            x = cp[0] * (1 + z) ** 3 / ref.E(z, *cp[:3]) ** 2 - 1
            dv = 18 * np.pi**2 + 82 * x - 39 * x * x
            want = 2**1.5 * ref.hubble_time(cp[3]) / ref.E(z, *cp[:3]) / np.sqrt(dv)
            v = R.call("virial_dynamical_time", fw.virial_dynamical_time, z, *cp)
            R.ok("virial-scalar", np.shape(v) == (), shape=np.shape(v))
            R.eq("virial", v, want, rtol=1e-8, **info)
    for c in R.cases("array", 25, 250):
        with c:
            r = c.rng
            cp = gen.cosmology(r)
            zs = np.sort(np.concatenate([[0.0], 10 ** r.uniform(-4, 2, 19)]))
            a = R.call("age_at_z", fw.age_at_z, zs, *cp)
            R.ok("age-shape", a.shape == zs.shape, shape=a.shape)
            R.ok("age-decreases", np.diff(a) < 0, a=a, z=zs, cosmo=cp)
            R.ok("age-positive", a > 0, a=a, cosmo=cp)
            l = R.call("lookback_time", fw.lookback_time, zs, *cp)
            R.ok("lookback-zero", abs(l[0]) < 1e-9, l0=l[0])
            R.eq("array-equals-scalar", l, [float(np.asarray(fw.lookback_to_z(float(z), *cp))) for z in zs], rtol=1e-11)
            R.eq("age-is-age0-minus-lookback", a, float(np.asarray(fw.age_at_z0(*cp))) - l, rtol=1e-10, atol=1e-12)
            v = R.call("virial_dynamical_time", fw.virial_dynamical_time, zs, *cp)
            R.eq("array-equals-scalar", v, [float(np.asarray(fw.virial_dynamical_time(float(z), *cp))) for z in zs], rtol=1e-11)
            rc = R.call("rho_crit", fw.rho_crit, zs, *cp)
            R.eq("rho-crit", rc, 277.536627 * cp[3] ** 2 * ref.E(zs, *cp[:3]) ** 2, rtol=1e-10, cosmo=cp)
            p = r.permutation(20)
            R.eq("array-equals-scalar", R.call("age_at_z", fw.age_at_z, zs[p], *cp), a[p], rtol=1e-10)
    for n in [300, 700, 3000] + [20000] * R.thorough:
        for c in R.cases("long-array%d" % n, 4, 30):
            with c:
                r = c.rng
                cp = gen.cosmology(r)
                zs = gen.many_redshifts(r, n, 50.0)
                at = np.unique(np.concatenate([[0, 1, n // 2, n - 2, n - 1], r.integers(0, n, 25)]))
                one = dict(age_at_z=lambda z: fw.age_at_z(z, *cp)[0], lookback_time=lambda z: fw.lookback_to_z(z, *cp),
                           virial_dynamical_time=lambda z: fw.virial_dynamical_time(z, *cp),
                           rho_crit=lambda z: fw.rho_crit(z, *cp))
                for nm, fs in one.items():
                    v = R.call(nm, getattr(fw, nm), zs, *cp)
                    R.ok("age-shape", v.shape == (n,), nm=nm, shape=v.shape)
                    R.eq("array-equals-scalar", v[at], [float(np.asarray(fs(float(z)))) for z in zs[at]],
                         rtol=1e-10, nm=nm, cosmo=cp, n=n)
