"""C10 distances and volumes."""
import numpy as np

from .. import gen, ref

RULE = ("Redshifts 0, 1e-8..20 (log and linear), cosmologies in a wide w0-wa box plus the three named ones; "
        "reference: composite Gauss-Legendre quadrature in ln(1+z).")
REQUIRED = {"comoving-reference": 150, "luminosity-definition": 100, "angular-definition": 100,
            "modulus-definition": 100, "volume-definition": 100, "monotone": 20, "array-equals-scalar": 20,
            "h-scaling": 50, "zero-at-z0": 10}
ASSUMPTIONS = ["0 <= z <= 20; w0+wa < 0"]


def workload(R):
    from dsps.cosmology import flat_wcdm as fw
    import dsps.cosmology as C
    for nm, want in gen.COSMO.items():
        got = getattr(C, {"FSPS": "FSPS_COSMO"}.get(nm, nm))
        R.ok("named-cosmologies", tuple(got) == want and got._fields == ("Om0", "w0", "wa", "h"), nm=nm, got=tuple(got))
    R.ok("named-cosmologies", tuple(C.DEFAULT_COSMOLOGY) == gen.COSMO["PLANCK15"])
    for c in R.cases("scalar", 220, 3000):
        with c:
            r = c.rng
            z = gen.special(r, 1e-6, 20.0, (0.1, 0.5, 1.0, 2.0, 3.0, 1e-8, 1100.0 if False else 6.0))
            cp = gen.cosmology(r)
            info = dict(z=z, cosmo=cp)
            d = float(R.call("comoving_distance_to_z", fw.comoving_distance_to_z, z, *cp))
            want = ref.comoving_distance(z, *cp)
            tol = 5e-4 if z <= 10 else 2e-3
            R.eq("comoving-reference", d, want, rtol=tol, **info)
            R.stat("comoving-rel-error", abs(d / want - 1))
            if z <= 3:
                R.eq("comoving-reference", d, want, rtol=5e-5, **info)
            dl = R.call("luminosity_distance_to_z", fw.luminosity_distance_to_z, z, *cp)
            da = R.call("angular_diameter_distance_to_z", fw.angular_diameter_distance_to_z, z, *cp)
            mu = R.call("distance_modulus_to_z", fw.distance_modulus_to_z, z, *cp)
            dv = R.call("differential_comoving_volume_at_z", fw.differential_comoving_volume_at_z, z, *cp)
            dh = R.call("hubble_distance_mpc", fw.hubble_distance_mpc, cp[3])
            R.eq("luminosity-definition", dl, d * (1 + z), rtol=1e-10, **info)
            R.eq("angular-definition", da, d / (1 + z), rtol=1e-10, **info)
            R.eq("modulus-definition", mu, 5 * np.log10(d * (1 + z) * 1e5), rtol=0, atol=1e-9, **info)
            R.eq("hubble-distance", dh, ref.C_KMS / (100 * cp[3]), rtol=1e-9, **info)
            R.eq("volume-definition", dv, (ref.C_KMS / (100 * cp[3])) * d**2 / ref.E(z, *cp[:3]), rtol=1e-8, **info)
            k = r.uniform(0.5, 2)
            cq = cp[:3] + (cp[3] * k,)
            R.eq("h-scaling", R.call("comoving_distance_to_z", fw.comoving_distance_to_z, z, *cq), d / k, rtol=1e-10, **info)
            R.eq("h-scaling", R.call("differential_comoving_volume_at_z", fw.differential_comoving_volume_at_z, z, *cq),
                 dv / k**3, rtol=1e-9, **info)
    for c in R.cases("array", 25, 250):
        with c:
            r = c.rng
            cp = gen.cosmology(r)
            zs = np.sort(np.concatenate([[0.0], 10 ** r.uniform(-4, np.log10(20), 19)]))
            pairs = [("comoving_distance", fw.comoving_distance_to_z), ("luminosity_distance", fw.luminosity_distance_to_z),
                     ("angular_diameter_distance", fw.angular_diameter_distance_to_z),
                     ("distance_modulus", fw.distance_modulus_to_z),
                     ("differential_comoving_volume", fw.differential_comoving_volume_at_z)]
            perm = r.permutation(20)
            for nm, fs in pairs:
                fv = getattr(fw, nm)
                v = R.call(nm, fv, zs, *cp)
                R.ok("array-shape", v.shape == (20,), nm=nm, shape=v.shape)
                sc = np.array([float(np.asarray(fs(float(z), *cp))) for z in zs])
                R.eq("array-equals-scalar", v[1:], sc[1:], rtol=1e-11, nm=nm, cosmo=cp)
                if nm != "distance_modulus":
                    R.ok("zero-at-z0", abs(v[0]) < 1e-9, nm=nm, v0=v[0])
                if nm not in ("angular_diameter_distance", "differential_comoving_volume"):
                    R.ok("monotone", np.diff(v[1:]) > 0, nm=nm, v=v, cosmo=cp)
                    R.ok("monotone", v[1] > v[0], nm=nm)
                R.eq("array-equals-scalar", R.call(nm, fv, zs[perm], *cp)[perm.argsort()][1:], v[1:], rtol=1e-11, nm=nm)
            # Hubble law at low redshift
            z0 = 1e-5
            R.eq("hubble-law", R.call("luminosity_distance_to_z", fw.luminosity_distance_to_z, z0, *cp),
                 ref.C_KMS / (100 * cp[3]) * z0, rtol=1e-4)
            # integrating the volume element gives the comoving volume
            zz = np.linspace(0, 2, 401)
            vv = R.call("differential_comoving_volume", fw.differential_comoving_volume, zz, *cp)
            R.eq("volume-integral", ref.trapz(zz, vv), ref.comoving_distance(2.0, *cp) ** 3 / 3, rtol=3e-4, cosmo=cp)
    # thousands of redshifts in one call, in any order and over any range
    for n in [300, 700, 3000] + [20000] * R.thorough:
        for c in R.cases("long-array%d" % n, 4, 30):
            with c:
                r = c.rng
                cp = gen.cosmology(r)
                zs = gen.many_redshifts(r, n, 20.0)
                at = np.unique(np.concatenate([[0, 1, n // 2, n - 2, n - 1], r.integers(0, n, 25)]))
                for nm, fs in (("comoving_distance", fw.comoving_distance_to_z),
                               ("luminosity_distance", fw.luminosity_distance_to_z),
                               ("angular_diameter_distance", fw.angular_diameter_distance_to_z),
                               ("distance_modulus", fw.distance_modulus_to_z),
                               ("differential_comoving_volume", fw.differential_comoving_volume_at_z)):
                    v = R.call(nm, getattr(fw, nm), zs, *cp)
                    R.ok("array-shape", v.shape == (n,), nm=nm, shape=v.shape)
                    R.finite("array-finite", v, nm=nm, n=n)
                    R.eq("array-equals-scalar", v[at], [float(np.asarray(fs(float(z), *cp))) for z in zs[at]],
                         rtol=1e-10, nm=nm, cosmo=cp, n=n)
