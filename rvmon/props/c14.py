"""C14 blackbody."""
import numpy as np

from .. import gen, ref

RULE = ("Photon energies x = h nu / k T from 1e-10 to 5000 at temperatures 0.3..1e7 K, scalars, vectors and grids of either; reference "
        "Planck law with expm1; derivatives by jax; Wien peak and Stefan-Boltzmann integral on dense grids.")
REQUIRED = {"planck-freq": 100, "planck-wave": 100, "jacobian": 50, "finite-gradient": 50, "wien": 10, "stefan": 10,
            "hotter-brighter": 50}
ASSUMPTIONS = ["positive wavelengths/frequencies and temperatures, floating-point input"]


def workload(R):
    import jax
    import jax.numpy as jnp
    from dsps.dust import blackbody_freq_density as bn, blackbody_wave_density as bw
    gnu = jax.jit(jax.vmap(jax.grad(bn, argnums=(0, 1)), in_axes=(0, None)))
    gw = jax.jit(jax.vmap(jax.grad(bw, argnums=(0, 1)), in_axes=(0, None)))
    for n in ([60, 1, 5000] if not R.thorough else [60, 1, 2, 5000, 100000]):
        for c in R.cases("sweep%d" % n, 80 if n < 1000 else 9, 800 if n < 1000 else 60):
            with c:
                r = c.rng
                T = gen.special(r, 0.3, 1e7, (2.725, 5772.0, 30.0, 100.0, 1.0, 2.0))
                lo, hi = ((-2, 2), (-10, -3), (2.0, 3.7))[c.index % 3]
                x = 10 ** r.uniform(lo, hi, n)
                nu = x * ref.K * T / ref.H
                w = ref.C / nu * 1e10
                info = dict(T=T, n=n, x0=float(x[0]))
                TT = jnp.float64(T) if r.random() < 0.3 else (int(T) if T == int(T) and r.random() < 0.5 else T)
                B = R.call("blackbody_freq_density", bn, gen.as_kind(r, nu), TT)
                L = R.call("blackbody_wave_density", bw, gen.as_kind(r, w), TT)
                rt = 1e-9 + 1e-15 * 0 + 3e-15 * np.max(np.where(x < 745, x, 0))
                pn, pw = ref.planck_nu(nu, T), ref.planck_aa(w, T)
                R.finite("finite", B, **info)
                R.finite("finite", L, **info)
                R.ok("non-negative", (B >= 0) & True, **info)
                R.ok("non-negative", L >= 0, **info)
                R.eq("planck-freq", B, pn, rtol=rt, atol=1e-290, **info)
                R.eq("planck-wave", L, pw, rtol=rt, atol=1e-280, **info)
                m = (pn > 1e-250) & (pw > 1e-250)
                if m.any():
                    # B_lambda dlambda = B_nu dnu, lambda in AA
                    R.eq("jacobian", L[m], B[m] * ref.C * 1e10 / w[m] ** 2, rtol=1e-8 + 10 * rt, **info)
                Bh = R.call("blackbody_freq_density", bn, nu, T * 1.2)
                R.ok("hotter-brighter", (Bh > B) | (pn < 1e-290), **info)
                G = R.call("grad blackbody_freq_density", gnu, nu, T)
                R.finite("finite-gradient", G, **info)
                G2 = R.call("grad blackbody_wave_density", gw, w, T)
                R.finite("finite-gradient", G2, **info)
                # dB/dT = B x e^x/(e^x-1) / T
                with np.errstate(over="ignore"):
                    want = pn * x / -np.expm1(-x) / T
                R.eq("gradient-T", G[1], want, rtol=1e-6 + 10 * rt, atol=1e-280, **info)
                R.stat("log10-x", np.log10(x[0]))
                if c.index % 3 == 0:        # one temperature per entry, and a grid of both
                    Ts = T * r.uniform(0.8, 1.2, n)
                    R.eq("planck-freq", R.call("blackbody_freq_density", bn, nu, Ts), ref.planck_nu(nu, Ts), rtol=2 * rt, atol=1e-290, each=True, **info)
                    R.eq("planck-wave", R.call("blackbody_wave_density", bw, w, Ts), ref.planck_aa(w, Ts), rtol=2 * rt, atol=1e-280, each=True, **info)
                    m = Ts[:5, None]
                    R.eq("planck-freq", R.call("blackbody_freq_density", bn, nu[None, :], m), ref.planck_nu(nu[None, :], m), rtol=2 * rt, atol=1e-290, grid=True, **info)
                    R.eq("planck-wave", R.call("blackbody_wave_density", bw, w[None, :], m), ref.planck_aa(w[None, :], m), rtol=2 * rt, atol=1e-280, grid=True, **info)
                if n == 1:
                    s = R.call("blackbody_freq_density", bn, float(nu[0]), T)
                    R.eq("scalar", s, B[0], rtol=1e-12, atol=1e-290)
                    s = R.call("blackbody_wave_density", bw, float(w[0]), T)
                    R.eq("scalar", s, L[0], rtol=1e-12, atol=1e-290)
    for c in R.cases("laws", 20, 200):
        with c:
            T = float(10 ** c.rng.uniform(-0.5, 6))
            x = np.linspace(1e-4, 60, 20001)
            nu = x * ref.K * T / ref.H
            B = R.call("blackbody_freq_density", bn, nu, T)
            w = 10 ** np.linspace(-0.7, 3.5, 20001) * 2.897771955e7 / T
            L = R.call("blackbody_wave_density", bw, w, T)
            R.eq("wien", nu[np.argmax(B)] / T, 5.878925757e10, rtol=2e-3, T=T)
            R.eq("wien", w[np.argmax(L)] * T, 2.897771955e7, rtol=2e-3, T=T)
            sb = 5.670374419e-8 / np.pi * T**4 / ref.LSUN_W
            R.eq("stefan", ref.trapz(nu, B), sb, rtol=1e-5, T=T)
            R.eq("stefan", ref.trapz(w, L), sb, rtol=2e-4, T=T)
