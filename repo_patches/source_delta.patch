From 3ff3a2d5db94da92c5f29e257810737a0ea4038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 01/15] fix: reject transmission curves whose maximum exceeds
 unity

---
 dsps/data_loaders/load_filter_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/data_loaders/load_filter_data.py b/dsps/data_loaders/load_filter_data.py
index 9ce126f..54a3d14 100644
--- a/dsps/data_loaders/load_filter_data.py
+++ b/dsps/data_loaders/load_filter_data.py
@@ -80,7 +80,7 @@ def load_transmission_curve(fn=None, bn_pat=None, drn=None):
 
         if transmission.min() < -TOL:
             raise ValueError(f"Negatively-valued transmission curve for {fn}")
-        elif transmission.min() > 1 + TOL:
+        elif transmission.max() > 1 + TOL:
             raise ValueError(f"transmission curve exceeds unity for {fn}")
         else:
             transmission = np.clip(transmission, 0.0, 1.0)
-- 
2.43.0


From 71af28cad1996ad715541cf6de82104aad5acb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 02/15] fix: virial_dynamical_time accepts a scalar redshift as
 documented

---
 dsps/cosmology/flat_wcdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/cosmology/flat_wcdm.py b/dsps/cosmology/flat_wcdm.py
index 3afde86..c4775f9 100644
--- a/dsps/cosmology/flat_wcdm.py
+++ b/dsps/cosmology/flat_wcdm.py
@@ -323,7 +323,7 @@ _Om = jjit(vmap(_Om_at_z, in_axes=_A[:-1]))
 
 @jjit
 def _delta_vir(z, Om0, w0, wa):
-    x = _Om(z, Om0, w0, wa) - 1.0
+    x = _Om_at_z(z, Om0, w0, wa) - 1.0
     Delta = 18 * jnp.pi**2 + 82.0 * x - 39.0 * x**2
     return Delta
 
-- 
2.43.0


From b187201d711ff0abe622c04d2b6c63221b411121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 03/15] fix: apply sfr_min to the SSP weights used by
 calc_rest_sed_*

---
 dsps/sed/ssp_weights.py | 13 +++++++++++--
 dsps/sed/stellar_sed.py |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/dsps/sed/ssp_weights.py b/dsps/sed/ssp_weights.py
index 8a6c9c1..0d20ffb 100644
--- a/dsps/sed/ssp_weights.py
+++ b/dsps/sed/ssp_weights.py
@@ -10,6 +10,7 @@ import typing
 from jax import jit as jjit
 from jax import numpy as jnp
 
+from ..constants import SFR_MIN
 from .metallicity_weights import (
     calc_lgmet_weights_from_lgmet_table,
     calc_lgmet_weights_from_lognormal_mdf,
@@ -37,6 +38,7 @@ def calc_ssp_weights_sfh_table_lognormal_mdf(
     ssp_lgmet,
     ssp_lg_age_gyr,
     t_obs,
+    sfr_min=SFR_MIN,
 ):
     """Calculate SSP weights of a tabulated SFH and a lognormal MDF
 
@@ -63,6 +65,9 @@ def calc_ssp_weights_sfh_table_lognormal_mdf(
     t_obs : float
         Age of the universe in Gyr at the time the galaxy is observed
 
+    sfr_min : float, optional
+        Minimum star formation rate in Msun/yr
+
     Returns
     -------
     SSPWeights : namedtuple with the following entries:
@@ -78,7 +83,7 @@ def calc_ssp_weights_sfh_table_lognormal_mdf(
 
     """
     age_weights = calc_age_weights_from_sfh_table(
-        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs
+        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs, sfr_min
     )
     lgmet_weights = calc_lgmet_weights_from_lognormal_mdf(
         gal_lgmet, gal_lgmet_scatter, ssp_lgmet
@@ -99,6 +104,7 @@ def calc_ssp_weights_sfh_table_met_table(
     ssp_lgmet,
     ssp_lg_age_gyr,
     t_obs,
+    sfr_min=SFR_MIN,
 ):
     """Calculate SSP weights of a tabulated star-formation and metallicity history
 
@@ -125,6 +131,9 @@ def calc_ssp_weights_sfh_table_met_table(
     t_obs : float
         Age of the universe in Gyr at the time the galaxy is observed
 
+    sfr_min : float, optional
+        Minimum star formation rate in Msun/yr
+
     Returns
     -------
     SSPWeights : namedtuple with the following entries:
@@ -140,7 +149,7 @@ def calc_ssp_weights_sfh_table_met_table(
 
     """
     age_weights = calc_age_weights_from_sfh_table(
-        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs
+        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs, sfr_min
     )
     lgmet_weights = calc_lgmet_weights_from_lgmet_table(
         gal_t_table,
diff --git a/dsps/sed/stellar_sed.py b/dsps/sed/stellar_sed.py
index 41aa983..8323c9c 100644
--- a/dsps/sed/stellar_sed.py
+++ b/dsps/sed/stellar_sed.py
@@ -111,6 +111,7 @@ def calc_rest_sed_sfh_table_lognormal_mdf(
         ssp_lgmet,
         ssp_lg_age_gyr,
         t_obs,
+        sfr_min,
     )
     n_met, n_ages = weights.shape
     sed_unit_mstar = jnp.sum(
@@ -194,6 +195,7 @@ def calc_rest_sed_sfh_table_met_table(
         ssp_lgmet,
         ssp_lg_age_gyr,
         t_obs,
+        sfr_min,
     )
     n_met, n_ages = weights.shape
     sed_unit_mstar = jnp.sum(
-- 
2.43.0


From 1667bedbd8b83a6da06474a0c794a1b9d5986681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 04/15] fix: write_fsps_data_to_disk works for SSP data without
 emission lines

---
 scripts/write_fsps_data_to_disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/write_fsps_data_to_disk.py b/scripts/write_fsps_data_to_disk.py
index cb97ea1..fea1187 100644
--- a/scripts/write_fsps_data_to_disk.py
+++ b/scripts/write_fsps_data_to_disk.py
@@ -32,7 +32,7 @@ if __name__ == "__main__":
     with h5py.File(args.outname, "w") as hdf:
         for key, arr in zip(DEFAULT_SSP_KEYS, ssp_data):
             hdf[key] = arr
-        if "ssp_emline_wave" in ssp_data._fields:
+        if ssp_data.ssp_emline_wave is not None:
             ssp_emline_name = list(ssp_data.ssp_emline_wave._fields)
             ssp_emline_wave = np.array(
                 [getattr(ssp_data.ssp_emline_wave, name) for name in ssp_emline_name]
-- 
2.43.0


From 7eccc531cae6235c9007018c02e469ff8d89c115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 05/15] fix: legend labels of make_mzr_comparison_plot were
 swapped

---
 dsps/metallicity/diagnostics/plot_mzr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/metallicity/diagnostics/plot_mzr.py b/dsps/metallicity/diagnostics/plot_mzr.py
index a32b765..6c43a61 100644
--- a/dsps/metallicity/diagnostics/plot_mzr.py
+++ b/dsps/metallicity/diagnostics/plot_mzr.py
@@ -115,8 +115,8 @@ def make_mzr_comparison_plot(
 
     red_line = mlines.Line2D([], [], ls="-", c=colors[0], label=r"${\rm z=3}$")
     blue_line = mlines.Line2D([], [], ls="-", c=colors[-1], label=r"${\rm z=0}$")
-    solid_line = mlines.Line2D([], [], ls="-", c="gray", label=label2)
-    dashed_line = mlines.Line2D([], [], ls="--", c="gray", label=label1)
+    solid_line = mlines.Line2D([], [], ls="-", c="gray", label=label1)
+    dashed_line = mlines.Line2D([], [], ls="--", c="gray", label=label2)
     black_star = mlines.Line2D(
         [],
         [],
-- 
2.43.0


From 2f6659ef2f4d003cf551d7b70722cd50b1de1b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 06/15] fix: blackbody densities lost precision at small x and
 had NaN gradients at large x

---
 dsps/dust/blackbody.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/dust/blackbody.py b/dsps/dust/blackbody.py
index 1df141a..16ec356 100644
--- a/dsps/dust/blackbody.py
+++ b/dsps/dust/blackbody.py
@@ -76,7 +76,7 @@ def _freq_density_denom(freq_hz, temp_kelvin):
     hnu = H_PLANCK * freq_hz
     kt = K_BOLTZ * temp_kelvin
     x = hnu / kt
-    denom = 1 / (lax.exp(x) - 1)
+    denom = lax.exp(-x) / -lax.expm1(-x)
     return denom
 
 
@@ -115,7 +115,7 @@ def _wave_density_denom(wave_meters, temp_kelvin):
     hc = H_PLANCK * C_SPEED
     kt = K_BOLTZ * temp_kelvin
     x = hc / kt / wave_meters
-    denom = 1 / (lax.exp(x) - 1)
+    denom = lax.exp(-x) / -lax.expm1(-x)
     return denom
 
 
-- 
2.43.0


From ae9d1ff153d08cbffbb727e2b1118df82a4b6239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 07/15] fix: lookback_to_z under-resolved at high redshift,
 making age_at_z negative

---
 dsps/cosmology/flat_wcdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/cosmology/flat_wcdm.py b/dsps/cosmology/flat_wcdm.py
index c4775f9..8cff799 100644
--- a/dsps/cosmology/flat_wcdm.py
+++ b/dsps/cosmology/flat_wcdm.py
@@ -211,7 +211,7 @@ def lookback_to_z(redshift, Om0, w0, wa, h):
         lookback time in Gyr
 
     """
-    z_table = jnp.linspace(0, redshift, 512)
+    z_table = jnp.logspace(0, jnp.log10(1.0 + redshift), 512) - 1.0
     integrand = 1 / _Ez(z_table, Om0, w0, wa) / (1 + z_table)
     res = trapz(z_table, integrand)
     th = _hubble_time(0.0, Om0, w0, wa, h)
-- 
2.43.0


From f01b19dbc77a8ffa73b9afb2dda0685efd1bcef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 08/15] fix: enable x64 before any submodule computes
 constants, TODAY was float32

---
 dsps/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsps/__init__.py b/dsps/__init__.py
index 44cb25d..47cf123 100644
--- a/dsps/__init__.py
+++ b/dsps/__init__.py
@@ -1,6 +1,10 @@
 # flake8: noqa
 """
 """
+import jax
+
+jax.config.update("jax_enable_x64", True)
+
 from ._version import __version__
 from .data_loaders import SSPData, load_ssp_templates, load_transmission_curve
 from .photometry import *
-- 
2.43.0


From 4868647854e41b506866fbae62c24ba40e78bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 09/15] fix: load_transmission_curve treats the directory
 literally, not as a glob pattern

---
 dsps/data_loaders/load_filter_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/data_loaders/load_filter_data.py b/dsps/data_loaders/load_filter_data.py
index 54a3d14..f0b2200 100644
--- a/dsps/data_loaders/load_filter_data.py
+++ b/dsps/data_loaders/load_filter_data.py
@@ -2,7 +2,7 @@
 
 import os
 import random
-from glob import glob
+from glob import escape, glob
 
 import h5py
 import numpy as np
@@ -65,7 +65,7 @@ def load_transmission_curve(fn=None, bn_pat=None, drn=None):
                 )
                 raise ValueError(msg)
 
-        fn_pat = os.path.join(drn, bn_pat)
+        fn_pat = os.path.join(escape(drn), bn_pat)
         fn_list = glob(fn_pat)
         msg = "There is no filename with pattern {0} located in {1}"
         assert len(fn_list) != 0, msg.format(bn_pat, drn)
-- 
2.43.0


From e2636efe6a78b09689f7638fe4e776d5239da2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:02 +0000
Subject: [PATCH 10/15] fix: bin edges and birth times of age and metallicity
 grids given as integers

_jax_get_dt_array stored half-integer bin widths in an array of integers,
and 10**lg_ages is an integer power when lg_ages holds integers, which is
not defined for negative exponents.
---
 dsps/sed/stellar_age_weights.py | 2 +-
 dsps/utils.py                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/sed/stellar_age_weights.py b/dsps/sed/stellar_age_weights.py
index fbcc040..4d6f185 100644
--- a/dsps/sed/stellar_age_weights.py
+++ b/dsps/sed/stellar_age_weights.py
@@ -119,7 +119,7 @@ def _get_linspace_time_tables(t0=TODAY):
 def _get_lgt_birth(t_obs, lg_ages):
     """Age of the universe in Gyr at the birth time
     of the stellar populations observed at t_obs"""
-    t_birth = t_obs - 10**lg_ages
+    t_birth = t_obs - 10.0**lg_ages
     t_birth = jnp.where(t_birth < T_BIRTH_MIN, T_BIRTH_MIN, t_birth)
     lgt_birth = jnp.log10(t_birth)
     return lgt_birth
diff --git a/dsps/utils.py b/dsps/utils.py
index 640dd79..3e859ca 100644
--- a/dsps/utils.py
+++ b/dsps/utils.py
@@ -14,8 +14,8 @@ YEAR_PER_GYR = 1e9
 
 @jjit
 def _jax_get_dt_array(t):
-    dt = jnp.zeros_like(t)
     tmids = 0.5 * (t[:-1] + t[1:])
+    dt = jnp.zeros_like(t, dtype=tmids.dtype)
     dtmids = jnp.diff(tmids)
 
     dt = dt.at[1:-1].set(dtmids)
-- 
2.43.0


From ef2d2dfe86baeed13fd4d6f275462b09cdaa169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:13 +0000
Subject: [PATCH 11/15] fix: bursty age weights when lgfburst is an integer

10**lgfburst is an integer power then, not defined for negative exponents.
---
 dsps/sfh/diffburst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/sfh/diffburst.py b/dsps/sfh/diffburst.py
index 500ffbb..9200e3f 100644
--- a/dsps/sfh/diffburst.py
+++ b/dsps/sfh/diffburst.py
@@ -65,7 +65,7 @@ def calc_bursty_age_weights(burst_params, smooth_age_weights, ssp_lg_age_gyr):
         ssp_lg_age_yr, burst_params.lgyr_peak, burst_params.lgyr_max
     )
 
-    fb = 10**burst_params.lgfburst
+    fb = 10.0**burst_params.lgfburst
     age_weights = fb * burst_weights + (1 - fb) * smooth_age_weights
 
     return age_weights
@@ -217,7 +217,7 @@ DEFAULT_BURST_U_PARAMS = BurstUParams(
 @jjit
 def _compute_bursty_age_weights_from_params(lgyr_since_burst, age_weights, params):
     lgfburst, lgyr_peak, lgyr_max = params
-    fburst = 10**lgfburst
+    fburst = 10.0**lgfburst
     burst_weights = _pureburst_age_weights_from_params(
         lgyr_since_burst, lgyr_peak, lgyr_max
     )
-- 
2.43.0


From f42e81297d428afa2cfd5fd0bfb4c185aff96404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:13 +0000
Subject: [PATCH 12/15] fix: powerlaw_pdf and powerlaw_rvs with integer bounds
 and negative index

---
 dsps/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsps/utils.py b/dsps/utils.py
index 3e859ca..dd2f56b 100644
--- a/dsps/utils.py
+++ b/dsps/utils.py
@@ -211,6 +211,7 @@ def powerlaw_pdf(x, a, b, g):
         Value of the PDF for each powerlaw
 
     """
+    g = 1.0 * g  # powers of integers to negative integers are not defined
     ag, bg = a**g, b**g
     return g * x ** (g - 1) / (bg - ag)
 
@@ -240,6 +241,7 @@ def powerlaw_rvs(ran_key, a, b, g):
     """
     npts = a.shape[0]
     r = jran.uniform(ran_key, (npts,))
+    g = 1.0 * g  # powers of integers to negative integers are not defined
     ag, bg = a**g, b**g
     return (ag + (bg - ag) * r) ** (1.0 / g)
 
-- 
2.43.0


From 635a0f983d271c285e4e48e477ec83f799d78780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:13 +0000
Subject: [PATCH 13/15] fix: blackbody, remnant mass and sigmoid raised or
 overflowed on integer arguments

---
 dsps/dust/blackbody.py      | 2 +-
 dsps/imf/remnant_mass.py    | 2 +-
 dsps/imf/surviving_mstar.py | 4 ++--
 dsps/utils.py               | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dsps/dust/blackbody.py b/dsps/dust/blackbody.py
index 16ec356..fb8e738 100644
--- a/dsps/dust/blackbody.py
+++ b/dsps/dust/blackbody.py
@@ -83,7 +83,7 @@ def _freq_density_denom(freq_hz, temp_kelvin):
 @jjit
 def _jax_bb_freq_density_exparg(freq_hz):
     lg_term1 = LG2 + LGH - 2 * LGC
-    lg_term2 = 3 * lax.log(freq_hz)
+    lg_term2 = 3 * lax.log(1.0 * freq_hz)
     exparg = lg_term1 + lg_term2
     return exparg
 
diff --git a/dsps/imf/remnant_mass.py b/dsps/imf/remnant_mass.py
index 45be8ce..32c0038 100644
--- a/dsps/imf/remnant_mass.py
+++ b/dsps/imf/remnant_mass.py
@@ -48,6 +48,6 @@ def remnant_mass(
 
 @jjit
 def _log_remnant_mass(lg_age_yr, a, b, lgk1, d, e):
-    k1 = 10**lgk1
+    k1 = 10.0**lgk1
     xtp = b
     return 10 ** _sig_slope(lg_age_yr, xtp, a, b, k1, d, e)
diff --git a/dsps/imf/surviving_mstar.py b/dsps/imf/surviving_mstar.py
index 337bc5e..5d2b422 100644
--- a/dsps/imf/surviving_mstar.py
+++ b/dsps/imf/surviving_mstar.py
@@ -62,10 +62,10 @@ def surviving_mstar(
 
 @jjit
 def _returned_mass(lg_age_yr, a, b, lgk1, d, e, f, lgk2, h):
-    k1 = 10**lgk1
+    k1 = 10.0**lgk1
     xtp = b
     z = _sig_slope(lg_age_yr, xtp, a, b, k1, d, e)
 
-    k2 = 10**lgk2
+    k2 = 10.0**lgk2
     h = _sigmoid(lg_age_yr, f, k2, h, z)
     return h
diff --git a/dsps/utils.py b/dsps/utils.py
index dd2f56b..92ef32f 100644
--- a/dsps/utils.py
+++ b/dsps/utils.py
@@ -149,7 +149,7 @@ def _get_triweights_singlepoint(x, sig, bin_edges):
 @jjit
 def _sigmoid(x, x0, k, ylo, yhi):
     height_diff = yhi - ylo
-    return ylo + height_diff * nn.sigmoid(k * (x - x0))
+    return ylo + height_diff * nn.sigmoid(1.0 * k * (x - x0))
 
 
 @jjit
-- 
2.43.0


From 5dbb2f65b6c283b9498a97bb3437cbb1d5747aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:01 +0000
Subject: [PATCH 14/15] fix: load_random_transmission_curve keeps the random
 centre inside a narrow wave_range

---
 dsps/data_loaders/load_filter_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsps/data_loaders/load_filter_data.py b/dsps/data_loaders/load_filter_data.py
index f0b2200..e81bad8 100644
--- a/dsps/data_loaders/load_filter_data.py
+++ b/dsps/data_loaders/load_filter_data.py
@@ -96,8 +96,9 @@ def load_random_transmission_curve(
         ran_key = jran.key(seed)
 
     if tcurve_center is None:
-        xmin = wave_range[0] + scale * 2
-        xmax = wave_range[1] - scale * 2
+        margin = min(scale * 2, 0.5 * (wave_range[1] - wave_range[0]))
+        xmin = wave_range[0] + margin
+        xmax = wave_range[1] - margin
         tcurve_center = jran.uniform(ran_key, minval=xmin, maxval=xmax)
     else:
         assert wave_range[0] < tcurve_center < wave_range[1]
-- 
2.43.0


From 11ebeaafe77570120610a4deb7852b27dc5c776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:32 +0000
Subject: [PATCH 15/15] fix: a NaN sample no longer hides unphysical
 transmission values from the range check

---
 dsps/data_loaders/load_filter_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/data_loaders/load_filter_data.py b/dsps/data_loaders/load_filter_data.py
index e81bad8..cae0793 100644
--- a/dsps/data_loaders/load_filter_data.py
+++ b/dsps/data_loaders/load_filter_data.py
@@ -78,9 +78,9 @@ def load_transmission_curve(fn=None, bn_pat=None, drn=None):
         wave = hdf["wave"][...]
         transmission = hdf["transmission"][...]
 
-        if transmission.min() < -TOL:
+        if np.nanmin(transmission) < -TOL:
             raise ValueError(f"Negatively-valued transmission curve for {fn}")
-        elif transmission.max() > 1 + TOL:
+        elif np.nanmax(transmission) > 1 + TOL:
             raise ValueError(f"transmission curve exceeds unity for {fn}")
         else:
             transmission = np.clip(transmission, 0.0, 1.0)
-- 
2.43.0

