From 31ade3270a2cbfd7ebeb67a5e7fc26f935eec61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:06 +0000
Subject: [PATCH 01/37] fix: release every cached result when a setting it
 depends on changes

Several setters kept results computed from the old value: sep kept the average
multipoles and covariances, z_mean/z_min/z_max/deltaz/l kept tables or integrals,
the bias setters kept averages, covariances or the background, and
set_power_spectrum_linear kept every result. The derived 'divergent' flag was
never cleared.
---
 python/coffe/coffe.pyx | 76 ++++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 36 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 2dc8a57..2dea6dd 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -981,6 +981,14 @@ cdef class Coffe:
         ccoffe.coffe_average_covariance_free(&self._average_covariance_multipoles)
 
 
+    def _free_results(self):
+        self._free_corrfunc()
+        self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
+
+
     def _free_except_parameters(self):
         self._free_background()
         self._free_power_spectrum()
@@ -1105,8 +1113,13 @@ cdef class Coffe:
                 "'has_d1', 'has_d2', 'has_g1', 'has_g2', 'has_g3', "
                 "'has_g4', 'has_g5'"
             )
-        if any([self.has_d2, self.has_g1, self.has_g2, self.has_g3, self.has_g4, self.has_g5]):
-            self._parameters.divergent = 1
+        divergent = int(
+            any([self.has_d2, self.has_g1, self.has_g2, self.has_g3, self.has_g4, self.has_g5])
+        )
+        if divergent != self._parameters.divergent:
+            self._parameters.divergent = divergent
+            self._free_integrals()
+            self._free_results()
 
 
     def _balance_content(self):
@@ -1581,8 +1594,7 @@ cdef class Coffe:
         self._parameters.sep = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.sep_len):
             self._parameters.sep[i] = temp[i]
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_results()
 
 
     @property
@@ -1742,8 +1754,7 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_results()
 
 
     def galaxy_bias2(self, z : float):
@@ -1775,8 +1786,7 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_results()
 
 
     def galaxy_bias3(self, z : float):
@@ -1797,8 +1807,8 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def galaxy_bias4(self, z : float):
@@ -1819,8 +1829,8 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def magnification_bias1(self, z : float):
@@ -1852,8 +1862,8 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_background()
+        self._free_results()
 
 
     def magnification_bias2(self, z : float):
@@ -1885,8 +1895,8 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_background()
+        self._free_results()
 
 
     def evolution_bias1(self, z : float):
@@ -1906,8 +1916,8 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_background()
+        self._free_results()
 
 
     def evolution_bias2(self, z : float):
@@ -1927,8 +1937,8 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_background()
+        self._free_results()
 
 
     @property
@@ -1965,6 +1975,7 @@ cdef class Coffe:
         for i in range(self._parameters.multipole_values_len):
             self._parameters.multipole_values[i] = temp[i]
         # we need to free the integrals since the flat-sky ones may depend on them
+        self._free_integrals()
         self._free_multipoles()
         self._free_average_multipoles()
         self._free_covariance_multipoles()
@@ -2004,9 +2015,8 @@ cdef class Coffe:
         self._parameters.z_mean = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.z_mean_len):
             self._parameters.z_mean[i] = temp[i]
-        self._free_corrfunc()
-        self._free_multipoles()
-        self._free_covariance_multipoles()
+        self._free_integrals()
+        self._free_results()
 
     @property
     def z_min(self):
@@ -2040,10 +2050,7 @@ cdef class Coffe:
         self._parameters.zmin = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.zmin_len):
             self._parameters.zmin[i] = temp[i]
-        self._free_corrfunc()
-        self._free_multipoles()
-        self._free_covariance_multipoles()
-        self._free_average_covariance_multipoles()
+        self._free_results()
 
 
     @property
@@ -2078,10 +2085,7 @@ cdef class Coffe:
         self._parameters.zmax = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.zmax_len):
             self._parameters.zmax[i] = temp[i]
-        self._free_corrfunc()
-        self._free_multipoles()
-        self._free_covariance_multipoles()
-        self._free_average_covariance_multipoles()
+        self._free_results()
 
 
     @property
@@ -2321,8 +2325,8 @@ cdef class Coffe:
             self._parameters.covariance_interpolation_method = value
         else:
             self._parameters.covariance_interpolation_method = _invert_dict(_allowed_interpolation_2d_methods)[value]
-        self._free_covariance_multipoles()
-        self._free_average_covariance_multipoles()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2430,9 +2434,8 @@ cdef class Coffe:
         self._parameters.deltaz = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.deltaz_len):
             self._parameters.deltaz[i] = temp[i]
-        self._free_corrfunc()
-        self._free_multipoles()
-        self._free_covariance_multipoles()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2993,6 +2996,7 @@ cdef class Coffe:
         free(y_norm)
 
         self._free_integrals()
+        self._free_results()
 
 
     def comoving_distance(self, z : float):
-- 
2.43.0


From 3d843f999674c70605092c4aee6a03d317a6f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 02/37] fix: integrals_fftlog_sampling can be set

The setter wrote to a misspelt attribute and always raised AttributeError.
---
 python/coffe/coffe.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 2dea6dd..d210b36 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1662,7 +1662,7 @@ cdef class Coffe:
             1000000,
         )
 
-        self._parameter.bessel_bins = int(value)
+        self._parameters.bessel_bins = int(value)
         self._free_except_parameters()
 
 
-- 
2.43.0


From fd0ed566697121c1f790b9707d7fb28e605008b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 03/37] fix: keep the matter budget when omega_cdm or h changes
 with massive neutrinos

omega_cdm dropped the neutrino density from omega_m, and changing h left the
neutrino density at the value for the old h.
---
 python/coffe/coffe.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index d210b36..4694010 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1196,7 +1196,7 @@ cdef class Coffe:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_baryon, self.omega_gamma, self.omega_nu)
             self._parameters.Omega0_cdm = value / self._coeff
-            self._parameters.Omega0_m = self._parameters.Omega0_cdm + self._parameters.Omega0_baryon
+            self._parameters.Omega0_m = self._parameters.Omega0_cdm + self._parameters.Omega0_baryon + self._parameters.Omega0_nu
             self._balance_content()
             self._free_except_parameters()
 
@@ -1290,7 +1290,11 @@ cdef class Coffe:
         _check_parameter('h', value, (int, float), 0, 100)
         if not np.allclose(value, self.h):
             # setting the old value equal to the new value of h
+            # little omega(nu) is fixed by `m_ncdm`, so big omega(nu) changes
+            omega_nu = self._parameters.m_ncdm / 93.14 / value / value
             self._parameters.h = value
+            self._parameters.Omega0_nu = omega_nu
+            self._parameters.Omega0_cdm = self._parameters.Omega0_m - self._parameters.Omega0_baryon - self._parameters.Omega0_nu
             self._balance_content()
             self._free_except_parameters()
 
-- 
2.43.0


From 41409215a2a2f7988b9dbe2224d182c9cbe2f94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 04/37] fix: reject not-a-number settings

NaN passed the range checks and later ended the process inside the integrators.
---
 python/coffe/coffe.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 4694010..9749c77 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -98,6 +98,11 @@ def _check_parameter(
             f'Expected {kind}, got {type(value)}'
         )
 
+    if value != value:
+        raise ValueError(
+            'Value is not a number'
+        )
+
     if xmin is not None and value < xmin:
         raise ValueError(
             f'Value {value} smaller than xmin ({xmin})'
-- 
2.43.0


From fef3ad5610a4ff3307a695f3adb7a73a556c3d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 05/37] fix: validate and convert sampled functions before
 using them

Too few points or repeated abscissae made GSL abort the process, and an element
that is not a number was noticed only after the old power spectrum was dropped
or with the temporary buffers already allocated.
---
 python/coffe/coffe.pyx | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 9749c77..40643f5 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -171,12 +171,18 @@ cdef int set_spline(
     """
     Sets the value of the spline according to some x_sampling and y_sampling
     """
-    if not np.allclose(x_sampling, np.sort(x_sampling)):
-        raise ValueError('The input array must be sorted')
+    x_sampling = [float(_) for _ in x_sampling]
+    y_sampling = [float(_) for _ in y_sampling]
+
     if len(x_sampling) != len(y_sampling):
         raise ValueError(
             f'Mismatching lengths for x ({len(x_sampling)}) and y ({len(y_sampling)})'
         )
+    # the interpolation cannot be built otherwise
+    if len(x_sampling) < 5:
+        raise ValueError('At least 5 points are needed')
+    if not all(x1 < x2 for x1, x2 in zip(x_sampling, x_sampling[1:])):
+        raise ValueError('The input array must be sorted, without duplicates')
 
     _check_parameter('xmin', x_sampling[0], (int, float), xmin=xmin)
     _check_parameter('xmax', x_sampling[-1], (int, float), xmax=xmax)
@@ -2961,12 +2967,19 @@ cdef class Coffe:
         None
         """
         # value checking
-        if not np.allclose(k, np.sort(k)):
-            raise ValueError('The input k array must be sorted')
+        k = [float(_) for _ in k]
+        pk = [float(_) for _ in pk]
 
         if len(k) != len(pk):
             raise ValueError('The input arrays have mismatching lengths')
 
+        # the interpolation cannot be built otherwise
+        if len(k) < 5:
+            raise ValueError('At least 5 points are needed')
+
+        if not all(k1 < k2 for k1, k2 in zip(k, k[1:])):
+            raise ValueError('The input k array must be sorted, without duplicates')
+
         # TODO error checking for z and rescaling if z > 0
 
         self._free_power_spectrum()
-- 
2.43.0


From 81cd97136f6f2fb278469bfb183eb0171218ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 06/37] fix: refuse z_min and z_max of different lengths for
 average multipoles

The shorter z_max was read past its end.
---
 python/coffe/coffe.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 40643f5..44608a0 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1101,6 +1101,10 @@ cdef class Coffe:
             raise ValueError(
                 f'At least one of the following parameters is empty: l ({self.l}), sep ({self.sep}), z_min ({self.z_min}), z_max ({self.z_max})'
             )
+        if len(self.z_min) != len(self.z_max):
+            raise ValueError(
+                f'Mismatching lengths for z_min ({len(self.z_min)}) and z_max ({len(self.z_max)})'
+            )
 
 
     def _check_contributions(self):
-- 
2.43.0


From 2e0688ba1f89248306f03afa561d751defca40a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 07/37] fix: let the renormalised integral cover every
 requested redshift

The table reached only z_mean + deltaz (reading past a shorter deltaz), so
redshift-averaged multipoles outside it ended the process.
---
 python/coffe/coffe.pyx |  1 +
 src/integrals.c        | 29 +++++++++++++----------------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 44608a0..ed8e14b 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -2104,6 +2104,7 @@ cdef class Coffe:
         self._parameters.zmax = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.zmax_len):
             self._parameters.zmax[i] = temp[i]
+        self._free_integrals()
         self._free_results()
 
 
diff --git a/src/integrals.c b/src/integrals.c
index 27a0859..7b0c588 100644
--- a/src/integrals.c
+++ b/src/integrals.c
@@ -857,24 +857,21 @@ int coffe_integrals_init(
             double chi_max = 0.;
             if (
                 par->output_type == CORRFUNC ||
-                par->output_type == MULTIPOLES
+                par->output_type == MULTIPOLES ||
+                par->output_type == AVERAGE_MULTIPOLES
             ){
+                /* must cover all redshifts at which the integral is needed */
+                double z_max = 0.;
+                for (size_t i = 0; i < par->z_mean_len; ++i){
+                    const double z =
+                        par->z_mean[i] + (i < par->deltaz_len ? par->deltaz[i] : 0.);
+                    if (z > z_max) z_max = z;
+                }
+                for (size_t i = 0; i < par->zmax_len; ++i){
+                    if (par->zmax[i] > z_max) z_max = par->zmax[i];
+                }
                 /* dimensionless */
-                double *temp = (double *)coffe_malloc(sizeof(double) * par->z_mean_len);
-                for (size_t i = 0; i < par->z_mean_len; ++i)
-                    temp[i] = par->z_mean[i] + par->deltaz[i];
-                chi_max = coffe_interp_spline(
-                    &bg->comoving_distance,
-                    coffe_max_array_double(temp, par->z_mean_len)
-                );
-                free(temp);
-            }
-            else if (par->output_type == AVERAGE_MULTIPOLES){
-                /* dimensionless */
-                chi_max = coffe_interp_spline(
-                    &bg->comoving_distance,
-                    coffe_max_array_double(par->zmax, par->zmax_len)
-                );
+                chi_max = coffe_interp_spline(&bg->comoving_distance, z_max);
             }
             double *chi_array = (double *)coffe_malloc(
                 sizeof(double) * (nbins + 1)
-- 
2.43.0


From 8e9b0796e9119932c0da248e3a04b186c0910d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 08/37] fix: read back every setting that to_file writes

from_file ignored has_g2, has_only_cross_correlations, integration_1d_prec,
covariance_populations, omega_cdm, verbose and
start_large_k_at_tau_h_over_tau_k, read l_max_g and l_max_ur with the wrong
type, failed on empty lists, and applied interdependent settings in an
arbitrary order.
---
 python/coffe/coffe.pyx | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index ed8e14b..b09426d 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -65,13 +65,13 @@ class CoffeConfigParser(ConfigParser):
         """
         Converts the value of the option to a list of floats
         """
-        return [float(_) for _ in self.get(section, option).strip("[]").split(",")]
+        return [float(_) for _ in self.get(section, option).strip("[]").split(",") if _.strip()]
 
     def getint_array(self, section, option, *args, **kwargs):
         """
         Converts the value of the option to a list of ints
         """
-        return [int(_) for _ in self.get(section, option).strip("[]").split(",")]
+        return [int(_) for _ in self.get(section, option).strip("[]").split(",") if _.strip()]
 
     def getstr_array(self, section, option, *args, **kwargs):
         """
@@ -667,40 +667,45 @@ cdef class Coffe:
             if option in config:
                 setattr(cosmo, option, config.getfloat_array(option))
 
-        options_int_array = ["l"]
+        options_int_array = ["l", "covariance_populations"]
         for option in options_int_array:
             if option in config:
                 setattr(cosmo, option, config.getint_array(option))
 
-        options_float = {
-            "omega_m",
-            "omega_baryon",
+        # the order matters: `m_ncdm` needs `h`, and the checks of the various
+        # omegas depend on each other
+        options_float = [
+            "h",
             "omega_gamma",
+            "omega_baryon",
+            "m_ncdm",
+            "omega_m",
             "w0",
             "wa",
-            "h",
             "sigma8",
             "n_s",
             "T_cmb",
             "A_s",
             "k_per_decade_for_bao",
             "k_per_decade_for_pk",
-            "start_large_k_at_tau_c_over_tau_h",
-            "l_max_g",
-            "l_max_ur",
+            "start_large_k_at_tau_h_over_tau_k",
             "tol_perturb_integration",
             "radiation_streaming_trigger_tau_over_tau_k",
             "ur_fluid_trigger_tau_over_tau_k",
             "N_ur",
-            "m_ncdm",
             "k_min",
             "k_max",
             "YHe",
-        }
+            "integration_1d_prec",
+        ]
         for option in options_float:
             if option in config:
                 setattr(cosmo, option, config.getfloat(option))
 
+        # implied by the others if the total is given
+        if "omega_cdm" in config and "omega_m" not in config:
+            cosmo.omega_cdm = config.getfloat("omega_cdm")
+
         options_int = {
             "has_density",
             "has_lensing",
@@ -708,6 +713,7 @@ cdef class Coffe:
             "has_d1",
             "has_d2",
             "has_g1",
+            "has_g2",
             "has_g3",
             "has_g4",
             "has_g5",
@@ -723,6 +729,10 @@ cdef class Coffe:
             "covariance_integration_sampling",
             "integrals_fftlog_sampling",
             "N_ncdm",
+            "has_only_cross_correlations",
+            "l_max_g",
+            "l_max_ur",
+            "verbose",
         }
         for option in options_int:
             if option in config:
-- 
2.43.0


From 399f527259873a707ae0c7b107273392e87372b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:20 +0000
Subject: [PATCH 09/37] fix: report and save the biases at their actual
 sampling points

The *_redshifts methods returned an evenly spaced grid instead of the points of
the spline, so saving an unevenly sampled bias changed it.
---
 python/coffe/coffe.pyx | 58 +++++++++++++-----------------------------
 1 file changed, 18 insertions(+), 40 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index b09426d..320dca4 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -144,6 +144,16 @@ cdef double get_spline_max(
 
 
 
+cdef list get_spline_x(
+    ccoffe.coffe_interpolation *interp,
+):
+    """
+    Returns the points at which the spline is sampled
+    """
+    return [dereference(interp.spline).x[i] for i in range(get_spline_size(interp))]
+
+
+
 cdef double evaluate_spline(
     ccoffe.coffe_interpolation *interp,
     const double x,
@@ -866,11 +876,7 @@ cdef class Coffe:
 
     def galaxy_bias1_redshifts(self):
         """Return the redshifts of the galaxy bias 1 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias1)
-        xmin = get_spline_min(&self._parameters.galaxy_bias1)
-        xmax = get_spline_max(&self._parameters.galaxy_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_x(&self._parameters.galaxy_bias1))
 
     def galaxy_bias1_values(self):
         """Return the values of the galaxy bias 1 spline."""
@@ -879,11 +885,7 @@ cdef class Coffe:
 
     def galaxy_bias2_redshifts(self):
         """Return the redshifts of the galaxy bias 2 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias2)
-        xmin = get_spline_min(&self._parameters.galaxy_bias2)
-        xmax = get_spline_max(&self._parameters.galaxy_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_x(&self._parameters.galaxy_bias2))
 
     def galaxy_bias2_values(self):
         """Return the values of the galaxy bias 2 spline."""
@@ -891,11 +893,7 @@ cdef class Coffe:
 
     def galaxy_bias3_redshifts(self):
         """Return the redshifts of the galaxy bias 3 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias3)
-        xmin = get_spline_min(&self._parameters.galaxy_bias3)
-        xmax = get_spline_max(&self._parameters.galaxy_bias3)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_x(&self._parameters.galaxy_bias3))
 
     def galaxy_bias3_values(self):
         """Return the values of the galaxy bias 3 spline."""
@@ -903,11 +901,7 @@ cdef class Coffe:
 
     def galaxy_bias4_redshifts(self):
         """Return the redshifts of the galaxy bias 4 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias4)
-        xmin = get_spline_min(&self._parameters.galaxy_bias4)
-        xmax = get_spline_max(&self._parameters.galaxy_bias4)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_x(&self._parameters.galaxy_bias4))
 
     def galaxy_bias4_values(self):
         """Return the values of the galaxy bias 4 spline."""
@@ -916,11 +910,7 @@ cdef class Coffe:
 
     def magnification_bias1_redshifts(self):
         """Return the redshifts of the magnification bias 1 spline."""
-        size = get_spline_size(&self._parameters.magnification_bias1)
-        xmin = get_spline_min(&self._parameters.magnification_bias1)
-        xmax = get_spline_max(&self._parameters.magnification_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_x(&self._parameters.magnification_bias1))
 
     def magnification_bias1_values(self):
         """Return the values of the magnification bias 1 spline."""
@@ -929,11 +919,7 @@ cdef class Coffe:
 
     def magnification_bias2_redshifts(self):
         """Return the redshifts of the magnification bias 2 spline."""
-        size = get_spline_size(&self._parameters.magnification_bias2)
-        xmin = get_spline_min(&self._parameters.magnification_bias2)
-        xmax = get_spline_max(&self._parameters.magnification_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_x(&self._parameters.magnification_bias2))
 
     def magnification_bias2_values(self):
         """Return the values of the magnification bias 2 spline."""
@@ -942,11 +928,7 @@ cdef class Coffe:
 
     def evolution_bias1_redshifts(self):
         """Return the redshifts of the evolution bias 1 spline."""
-        size = get_spline_size(&self._parameters.evolution_bias1)
-        xmin = get_spline_min(&self._parameters.evolution_bias1)
-        xmax = get_spline_max(&self._parameters.evolution_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_x(&self._parameters.evolution_bias1))
 
     def evolution_bias1_values(self):
         """Return the values of the evolution bias 1 spline."""
@@ -955,11 +937,7 @@ cdef class Coffe:
 
     def evolution_bias2_redshifts(self):
         """Return the redshifts of the evolution bias 2 spline."""
-        size = get_spline_size(&self._parameters.evolution_bias2)
-        xmin = get_spline_min(&self._parameters.evolution_bias2)
-        xmax = get_spline_max(&self._parameters.evolution_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_x(&self._parameters.evolution_bias2))
 
     def evolution_bias2_values(self):
         """Return the values of the evolution bias 2 spline."""
-- 
2.43.0


From 65a5e4a61a415843835ea5b480e99819915ed779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:47 +0000
Subject: [PATCH 10/37] fix: keep flat-sky lensing terms in the correlation
 function and averaged multipoles

The flat-sky lensing terms are evaluated per kind of output, but the kind of
output was left at multipoles, which dropped them silently.
---
 python/coffe/coffe.pyx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 320dca4..e039502 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3221,6 +3221,10 @@ cdef class Coffe:
         cdef ccoffe.gsl_error_handler_t *default_handler = \
             ccoffe.gsl_set_error_handler_off()
 
+        # the flat-sky terms depend on the kind of output
+        temp = self._parameters.output_type
+        self._parameters.output_type = ccoffe.CORRFUNC
+
         result = ccoffe.coffe_integrate(
             &self._parameters,
             &self._background,
@@ -3243,6 +3247,7 @@ cdef class Coffe:
             ccoffe.DOUBLE_INTEGRATED, ccoffe.CORRFUNC
         )
 
+        self._parameters.output_type = temp
         ccoffe.gsl_set_error_handler(default_handler)
 
         return result
@@ -3572,12 +3577,16 @@ cdef class Coffe:
         )
 
     def _corrfunc_init(self):
+        # the flat-sky terms depend on the kind of output
+        temp = self._parameters.output_type
+        self._parameters.output_type = ccoffe.CORRFUNC
         ccoffe.coffe_corrfunc_init(
             &self._parameters,
             &self._background,
             &self._integral,
             &self._corrfunc
         )
+        self._parameters.output_type = temp
 
     def _multipoles_init(self):
         ccoffe.coffe_multipoles_init(
@@ -3588,12 +3597,16 @@ cdef class Coffe:
         )
 
     def _average_multipoles_init(self):
+        # the flat-sky terms depend on the kind of output
+        temp = self._parameters.output_type
+        self._parameters.output_type = ccoffe.AVERAGE_MULTIPOLES
         ccoffe.coffe_average_multipoles_init(
             &self._parameters,
             &self._background,
             &self._integral,
             &self._average_multipoles
         )
+        self._parameters.output_type = temp
 
     def _covariance_init(self):
         ccoffe.coffe_covariance_init(
-- 
2.43.0


From 2d4338d0f09cde19fc917477255c8480eff8db44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 11/37] fix: use the second population's factors in the
 lensing-doppler correlation

Both halves of the symmetrised term used the doppler factor of the first
population and the magnification bias of the second one.
---
 src/functions.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 464dcaa..f6fbd42 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -2559,8 +2559,8 @@ double functions_single_integrated(
                             chi1
                            *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                            *coffe_interp_spline(&bg->f, z2_const)
-                           *coffe_interp_spline(&bg->G1, z2_const)
-                           *(2 - 5 * s2)
+                           *coffe_interp_spline(&bg->G2, z2_const)
+                           *(2 - 5 * s1)
                             /* integrand */
                            *(1 - x)
                            /coffe_interp_spline(&bg->a, z1)
@@ -2643,7 +2643,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2697,8 +2697,8 @@ double functions_single_integrated(
                             chi1
                            *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                            *coffe_interp_spline(&bg->f, z2_const)
-                           *coffe_interp_spline(&bg->G1, z2_const)
-                           *(2 - 5 * s2)
+                           *coffe_interp_spline(&bg->G2, z2_const)
+                           *(2 - 5 * s1)
                             /* integrand */
                            *(1 - x)
                            /coffe_interp_spline(&bg->a, z1)
@@ -2773,7 +2773,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2860,8 +2860,8 @@ double functions_single_integrated(
                         chi1
                        *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                        *coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)
-                       *(2 - 5 * s2)
+                       *coffe_interp_spline(&bg->G2, z2_const)
+                       *(2 - 5 * s1)
                         /* integrand */
                        *(1 - x)
                        /coffe_interp_spline(&bg->a, z1)
@@ -2906,7 +2906,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2950,8 +2950,8 @@ double functions_single_integrated(
                         chi1
                        *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                        *coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)
-                       *(2 - 5 * s2)
+                       *coffe_interp_spline(&bg->G2, z2_const)
+                       *(2 - 5 * s1)
                         /* integrand */
                        *(1 - x)
                        /coffe_interp_spline(&bg->a, z1)
@@ -2987,7 +2987,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
-- 
2.43.0


From 34fca9160b224443dc4db45e5117ab45bcfe3f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:09 +0000
Subject: [PATCH 12/37] fix: count massive neutrinos in the expansion rate and
 comoving distance

---
 src/background.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/background.c b/src/background.c
index 9845cde..1593a72 100644
--- a/src/background.c
+++ b/src/background.c
@@ -152,6 +152,8 @@ struct integration_params
 
     double Omega0_baryon; /* omega parameter for baryons */
 
+    double Omega0_nu; /* omega parameter for massive neutrinos */
+
     double Omega0_gamma; /* omega parameter for photons */
 
     double Omega0_de; /* present omega parameter for dark energy-like component */
@@ -287,7 +289,7 @@ static double integrand_comoving(
 {
     struct integration_params *par = (struct integration_params *) p;
     double integrand = 1./pow(
-        (par->Omega0_cdm + par->Omega0_baryon)*pow(1 + z, 3)
+        (par->Omega0_cdm + par->Omega0_baryon + par->Omega0_nu)*pow(1 + z, 3)
        +par->Omega0_gamma*pow(1 + z, 4)
        +par->Omega0_de*coffe_interp_spline(&par->wint, z),
         1./2);
@@ -331,6 +333,7 @@ int coffe_background_init(
     struct integration_params ipar;
     ipar.Omega0_cdm = par->Omega0_cdm;
     ipar.Omega0_baryon = par->Omega0_baryon;
+    ipar.Omega0_nu = par->Omega0_nu;
     ipar.Omega0_gamma = par->Omega0_gamma;
     ipar.Omega0_de = par->Omega0_de;
     {
@@ -456,7 +459,7 @@ int coffe_background_init(
         (temp_bg->z)[i] = z;
         (temp_bg->a)[i] = 1./(1. + z);
         (temp_bg->Hz)[i] = sqrt(
-             (par->Omega0_cdm + par->Omega0_baryon)*pow(1 + z, 3)
+             (par->Omega0_cdm + par->Omega0_baryon + par->Omega0_nu)*pow(1 + z, 3)
             +par->Omega0_gamma*pow(1 + z, 4)
             +par->Omega0_de*wint) * par->h * COFFE_H0; // in units 1 / Mpc
         (temp_bg->conformal_Hz)[i] = (temp_bg->a)[i]*(temp_bg->Hz)[i]; // in units 1 / Mpc
@@ -465,7 +468,7 @@ int coffe_background_init(
            *(
                 2 * (1 + z) * par->Omega0_gamma
                 +
-                (par->Omega0_cdm + par->Omega0_baryon)
+                (par->Omega0_cdm + par->Omega0_baryon + par->Omega0_nu)
             )
             +
             (1 + 3 * w) * par->Omega0_de * wint
-- 
2.43.0


From e1278878645ee14af71dff3d403d4ccd243440ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:21 +0000
Subject: [PATCH 13/37] fix: include the Doppler factor in the cross terms of
 d1 with d2, g1, g2, g3, g4 and g5

---
 src/functions.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index f6fbd42..0067e25 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -1222,9 +1222,9 @@ double functions_nonintegrated(
         par->correlation_contrib.d2
     ){
         result += -(
-                (3 - fevo2)*curlyH1*pow(curlyH2, 2)*f1*f2*(chi2*costheta - chi1)
+                (3 - fevo2)*G1*curlyH1*pow(curlyH2, 2)*f1*f2*(chi2*costheta - chi1)
                 +
-                (3 - fevo1)*curlyH2*pow(curlyH1, 2)*f2*f1*(chi1*costheta - chi2)
+                (3 - fevo1)*G2*curlyH2*pow(curlyH1, 2)*f2*f1*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep);
     }
@@ -1234,9 +1234,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g1
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(1 + G2)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*G1*curlyH1*f1*(1 + G2)*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(1 + G1)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*G2*curlyH2*f2*(1 + G1)*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -1246,9 +1246,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g2
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(5*s2 - 2)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*G1*curlyH1*f1*(5*s2 - 2)*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(5*s1 - 2)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*G2*curlyH2*f2*(5*s1 - 2)*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -1258,9 +1258,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g3
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(f2 - 1.)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*G1*curlyH1*f1*(f2 - 1.)*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(f1 - 1.)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*G2*curlyH2*f2*(f1 - 1.)*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -3225,11 +3225,11 @@ double functions_single_integrated(
         result += pow(COFFE_H0 * par->h, 2)*(
             3*(par->Omega0_cdm + par->Omega0_baryon)
            *(
-                coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                coffe_interp_spline(&bg->G1, z1_const)*coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
                *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)*(lambda2*costheta - chi1)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
-                coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                coffe_interp_spline(&bg->G2, z2_const)*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)*(lambda1*costheta - chi2)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r22))
             ));
@@ -3242,13 +3242,13 @@ double functions_single_integrated(
         result += pow(COFFE_H0 * par->h, 2)*(
             3*(par->Omega0_cdm + par->Omega0_baryon)
            *(
-                chi2*coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)
+                chi2*coffe_interp_spline(&bg->G1, z1_const)*coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)
                *coffe_interp_spline(&bg->G2, z2_const)*coffe_interp_spline(&bg->D1, z1_const)
                *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)*(lambda2*costheta - chi1)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
-                chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
+                chi1*coffe_interp_spline(&bg->G2, z2_const)*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
                *coffe_interp_spline(&bg->G1, z1_const)*coffe_interp_spline(&bg->D1, z2_const)
                *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)*(lambda1*costheta - chi2)
-- 
2.43.0


From 266345137c1cf71c272b815a5a4718a373252d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:21 +0000
Subject: [PATCH 14/37] fix: divide by the scale factor in the density-g5 term,
 as the potential requires

---
 src/functions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 0067e25..11c0d0d 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3151,13 +3151,13 @@ double functions_single_integrated(
                 chi2*b1*coffe_interp_spline(&bg->G2, z2_const)*coffe_interp_spline(&bg->D1, z1_const)
                 /* integrand */
                *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
-               *coffe_interp_spline(&bg->D1, z2)*coffe_interp_spline(&bg->a, z2)
+               *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
                *coffe_interp_spline(&coffe_find_integral(integral, 2, 0, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
                 chi1*b2*coffe_interp_spline(&bg->G1, z1_const)*coffe_interp_spline(&bg->D1, z2_const)
                 /* integrand */
                *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
-               *coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->a, z1)
+               *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                *coffe_interp_spline(&coffe_find_integral(integral, 2, 0, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r22))
             ));
     }
-- 
2.43.0


From c513806e2a4883f0b79f5c1e946705e54b63c7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:21 +0000
Subject: [PATCH 15/37] fix: use the growth rate in the time derivative of the
 potential in the lensing-g5 term

---
 src/functions.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 11c0d0d..615b75a 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3927,7 +3927,7 @@ double functions_double_integrated(
                 9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/2.
                *(
                     (2 - 5*s2)*coffe_interp_spline(&bg->G1, z1_const)*chi1
-                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->conformal_Hz, z1) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                    *(1 - x2)/x2*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *(
@@ -3936,7 +3936,7 @@ double functions_double_integrated(
                     )
                     +
                     (2 - 5*s1)*coffe_interp_spline(&bg->G2, z2_const)*chi2
-                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->conformal_Hz, z2) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                    *(1 - x1)/x1*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *(
@@ -3950,13 +3950,13 @@ double functions_double_integrated(
                 9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/2.
                *(
                     (2 - 5*s2)*coffe_interp_spline(&bg->G1, z1_const)*chi1
-                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->conformal_Hz, z1) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                    *(1 - x2)/x2*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *2*lambda1*lambda2*coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)
                     +
                     (2 - 5*s1)*coffe_interp_spline(&bg->G2, z2_const)*chi2
-                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->conformal_Hz, z2) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                    *(1 - x1)/x1*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *2*lambda1*lambda2*coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)
-- 
2.43.0


From 69995393a5b8ee1028d1656d38b5df3d3d4be4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:21 +0000
Subject: [PATCH 16/37] fix: divide by the scale factor of the local potential
 in the g1/g2/g3-lensing terms

---
 src/functions.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 615b75a..9f4daa9 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3038,7 +3038,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(1 + coffe_interp_spline(&bg->G1, z1_const))*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(1 + coffe_interp_spline(&bg->G1, z1_const))*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3048,7 +3048,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(1 + coffe_interp_spline(&bg->G2, z2_const))*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(1 + coffe_interp_spline(&bg->G2, z2_const))*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
@@ -3068,7 +3068,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(5*s1 - 2)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(5*s1 - 2)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3078,7 +3078,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(5*s2 - 2)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(5*s2 - 2)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
@@ -3098,7 +3098,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(coffe_interp_spline(&bg->f, z1_const) - 1)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(coffe_interp_spline(&bg->f, z1_const) - 1)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3108,7 +3108,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(coffe_interp_spline(&bg->f, z2_const) - 1)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(coffe_interp_spline(&bg->f, z2_const) - 1)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
-- 
2.43.0


From cb095b8c6d7405c1f715444de3f1b4aed8ea9723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:21 +0000
Subject: [PATCH 17/37] fix: keep the power spectrum in the lensing-lensing
 integrand where the two points coincide

---
 src/functions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions.c b/src/functions.c
index 9f4daa9..f4219c0 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3826,7 +3826,7 @@ double functions_double_integrated(
                    *(1 - x1)
                    *(1 - x2)
                    *(
-                       4.
+                        4. * coffe_interp_spline(&coffe_find_integral(integral, 2, 0, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)/3.
                        +
                         24. * lambda1 * lambda2
                        *coffe_interp_spline(&coffe_find_integral(integral, 1, 1, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)/15.
-- 
2.43.0


From cb2633fdaafe78c35cfcbbc464e47b1d1de6b7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:02 +0000
Subject: [PATCH 18/37] fix: zero-separation renormalisation of I^4_0 was
 multiplied by r^4

integrals_integrate_function multiplies by r^(n - l), so passing n = 4 for the
integrand of the renormalised integral at zero separation, which is a function
of the distance and not an I^n_l, scaled the tabulated values by chi^4.
---
 src/integrals.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/integrals.c b/src/integrals.c
index 7b0c588..cfd71ea 100644
--- a/src/integrals.c
+++ b/src/integrals.c
@@ -814,8 +814,8 @@ int coffe_integrals_init(
                 result0[i] = integrals_integrate_function(
                     &integrals_renormalization0_integrand,
                     &par->power_spectrum_norm,
-                    /* n and l don't matter in this case */
-                    4,
+                    /* the integral itself, not rescaled by r^(n - l) */
+                    0,
                     0,
                     COFFE_INTEGER,
                     COFFE_INTEGER,
-- 
2.43.0


From 6aa75d14fceb2fce4c98ee7a08dc37791d068211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:18 +0000
Subject: [PATCH 19/37] fix: sign of the exchanged pairs in the covariance of
 odd multipoles

Exchanging the points of the second pair multiplies its multipole by (-1)^l,
as the Poisson term has it: with one population the covariance of an odd
multipole vanishes.
---
 src/covariance.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 467f176..4f620a7 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -881,7 +881,7 @@ int coffe_covariance_init(
                                par->covariance_pop4, galaxy_bias, growth_rate,
                                cnt_l2)
                             +
-                            coffe_sign(cnt_l2)
+                            coffe_sign(l2)
                            *covariance_coefficient_pair(par->covariance_pop1,
                                par->covariance_pop4, galaxy_bias, growth_rate,
                                cnt_l1)
@@ -915,7 +915,8 @@ int coffe_covariance_init(
                             )
                            /par->density1[k]
                             +
-                            covariance_coefficient_pair(par->covariance_pop1,
+                            coffe_sign(l2)
+                           *covariance_coefficient_pair(par->covariance_pop1,
                                 par->covariance_pop4, galaxy_bias, growth_rate,
                                 cnt)
                            *coffe_kronecker_delta(
@@ -924,7 +925,8 @@ int coffe_covariance_init(
                             )
                            /par->density2[k]
                             +
-                            covariance_coefficient_pair(par->covariance_pop2,
+                            coffe_sign(l2)
+                           *covariance_coefficient_pair(par->covariance_pop2,
                                 par->covariance_pop3, galaxy_bias, growth_rate,
                                 cnt)
                            *coffe_kronecker_delta(
-- 
2.43.0


From ba4f7316923c77b2424c329cdb531f24aa56c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:33 +0000
Subject: [PATCH 20/37] fix: bin each redshift of the covariance with its own
 pixel size

---
 src/covariance.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 4f620a7..a41090f 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -522,9 +522,12 @@ int coffe_covariance_init(
         double *separations = (double *)coffe_malloc(sizeof(double) * par->sep_len);
         for (size_t i = 0; i < par->sep_len; ++i)
             separations[i] = par->sep[i];
+        /* the integrals depend on the redshift if either the power spectrum or
+        the binning does */
+        const int integrals_at_z = par->pk_type || par->covariance_window;
         const size_t redshifts_to_allocate =
             /* trigraph */
-            par->pk_type ? par->z_mean_len : 1;
+            integrals_at_z ? par->density1_len : 1;
         /* allocating memory for the integrals of P(k) and P^2(k) (D_l1l2 and G_l1l2) */
         /* why triple pointers, you ask? First index is redshift, second is multipole, third are separations */
         double ***integral_pk =
@@ -567,7 +570,9 @@ int coffe_covariance_init(
                     pk_type,
 
                     /* trigraph */
-                    par->pk_type ? par->z_mean[index_redshift] : 0,
+                    par->output_type == COVARIANCE_MULTIPOLES
+                    ? par->z_mean[index_redshift]
+                    : (par->zmin[index_redshift] + par->zmax[index_redshift]) / 2.,
                     ((struct nonlinear *)par->class_struct.nonlinear)->index_pk_total,
                     pk,
                     NULL
@@ -998,7 +1003,7 @@ int coffe_covariance_init(
                        *(par->pk_type ? 1 : D1z * D1z)
                         /* trigraph */
                        *(
-                            par->pk_type
+                            integrals_at_z
                             ?
                             integral_pk[k][i*par->multipole_values_len + j][par->sep_len*n + m]
                             :
@@ -1015,7 +1020,7 @@ int coffe_covariance_init(
                         /* TODO fix this abomination */
                         /* trigraph */
                        *(
-                            par->pk_type
+                            integrals_at_z
                             ?
                             integral_pk2[k][i*par->multipole_values_len + j][par->sep_len*n + m]
                             :
-- 
2.43.0


From aaa6b3fb758ceae38b69dfcff80b4994a2e30232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:48 +0000
Subject: [PATCH 21/37] fix: has_binned_covariance has no effect with the
 FFTlog integration, as documented

---
 src/covariance.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index a41090f..051f6bf 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -522,9 +522,13 @@ int coffe_covariance_init(
         double *separations = (double *)coffe_malloc(sizeof(double) * par->sep_len);
         for (size_t i = 0; i < par->sep_len; ++i)
             separations[i] = par->sep[i];
+        /* the binning is only implemented for the standard integration */
+        const int window =
+            par->covariance_window &&
+            par->covariance_integration_method == COFFE_COVARIANCE_INTEGRATION_STANDARD;
         /* the integrals depend on the redshift if either the power spectrum or
         the binning does */
-        const int integrals_at_z = par->pk_type || par->covariance_window;
+        const int integrals_at_z = par->pk_type || window;
         const size_t redshifts_to_allocate =
             /* trigraph */
             integrals_at_z ? par->density1_len : 1;
@@ -670,9 +674,9 @@ int coffe_covariance_init(
                                 separations[m],
                                 separations[n],
                                 /* trigraph */
-                                (par->covariance_window ? par->pixelsize[index_redshift] : 0),
+                                (window ? par->pixelsize[index_redshift] : 0),
                                 /* trigraph */
-                                (par->covariance_window ? par->pixelsize[index_redshift] : 0),
+                                (window ? par->pixelsize[index_redshift] : 0),
                                 par->multipole_values[i],
                                 par->multipole_values[j],
                                 k_min,
@@ -697,9 +701,9 @@ int coffe_covariance_init(
                                 separations[m],
                                 separations[n],
                                 /* trigraph */
-                                (par->covariance_window ? par->pixelsize[index_redshift] : 0),
+                                (window ? par->pixelsize[index_redshift] : 0),
                                 /* trigraph */
-                                (par->covariance_window ? par->pixelsize[index_redshift] : 0),
+                                (window ? par->pixelsize[index_redshift] : 0),
                                 par->multipole_values[i],
                                 par->multipole_values[j],
                                 k_min,
@@ -978,7 +982,7 @@ int coffe_covariance_init(
                         )
                         /* trigraph */
                        *(
-                            par->covariance_window
+                            window
                             ?
                             1.
                             / covariance_volume_no_4pi(
-- 
2.43.0


From 8c9ef921ae2731d0852e7a13a6a71e3739c9e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:11 +0000
Subject: [PATCH 22/37] fix: rescale the covariance with the growth of the
 spectrum unless CLASS provides it at the redshift

---
 src/covariance.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 051f6bf..d48a819 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -526,9 +526,16 @@ int coffe_covariance_init(
         const int window =
             par->covariance_window &&
             par->covariance_integration_method == COFFE_COVARIANCE_INTEGRATION_STANDARD;
+        /* whether the power spectrum used is the one at the redshift itself,
+        otherwise it is the one today, and we have to rescale it */
+#ifdef HAVE_CLASS
+        const int spectrum_at_z = par->have_class && par->pk_type != COFFE_PK_LINEAR;
+#else
+        const int spectrum_at_z = COFFE_FALSE;
+#endif
         /* the integrals depend on the redshift if either the power spectrum or
         the binning does */
-        const int integrals_at_z = par->pk_type || window;
+        const int integrals_at_z = spectrum_at_z || window;
         const size_t redshifts_to_allocate =
             /* trigraph */
             integrals_at_z ? par->density1_len : 1;
@@ -1004,7 +1011,7 @@ int coffe_covariance_init(
                         coffe_sign((l2 - l1) / 2)
                        *coffe_sign(l1 + l2)
                         /* trigraph */
-                       *(par->pk_type ? 1 : D1z * D1z)
+                       *(spectrum_at_z ? 1 : D1z * D1z)
                         /* trigraph */
                        *(
                             integrals_at_z
@@ -1020,7 +1027,7 @@ int coffe_covariance_init(
                         par->covariance_cosmic ?
                         coffe_sign((l2 - l1) / 2) *
                         /* trigraph */
-                        (par->pk_type ? 1 : D1z * D1z * D1z * D1z)
+                        (spectrum_at_z ? 1 : D1z * D1z * D1z * D1z)
                         /* TODO fix this abomination */
                         /* trigraph */
                        *(
-- 
2.43.0


From 81da74e5da360d1f12d03b2855bb3a20cfb11f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:56 +0000
Subject: [PATCH 23/37] fix: do not share the accelerators of the splines among
 the threads

---
 src/common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index 5ab3058..85ae0cc 100644
--- a/src/common.c
+++ b/src/common.c
@@ -706,7 +706,8 @@ double coffe_interp_spline(
     double value
 )
 {
-    return gsl_spline_eval(interp->spline, value, interp->accel);
+    /* an accelerator keeps state, and the spline can be read by several threads at once */
+    return gsl_spline_eval(interp->spline, value, NULL);
 }
 
 double coffe_interp_spline2d(
@@ -715,7 +716,8 @@ double coffe_interp_spline2d(
     const double value2
 )
 {
-    return gsl_spline2d_eval(interp->spline, value1, value2, interp->xaccel, interp->yaccel);
+    /* see coffe_interp_spline */
+    return gsl_spline2d_eval(interp->spline, value1, value2, NULL, NULL);
 }
 
 int coffe_parameters_free(
-- 
2.43.0


From f9f022047835750c481bd4175a50b115ac30cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:56 +0000
Subject: [PATCH 24/37] fix: set up the random number generator in one thread
 at a time

---
 src/common.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/common.c b/src/common.c
index 85ae0cc..999518f 100644
--- a/src/common.c
+++ b/src/common.c
@@ -1126,9 +1126,13 @@ double coffe_integrate_multidimensional(
     integrand.f = func;
     integrand.dim = dims;
     integrand.params = (void *)parameters;
-    gsl_rng_env_setup();
-    const gsl_rng_type *rng = gsl_rng_default;
-    gsl_rng *random = gsl_rng_alloc(rng);
+    gsl_rng *random;
+    /* the setup writes the global defaults of GSL */
+    #pragma omp critical(coffe_rng_setup)
+    {
+        gsl_rng_env_setup();
+        random = gsl_rng_alloc(gsl_rng_default);
+    }
     double lower[dims];
     double upper[dims];
     double error;
-- 
2.43.0


From 3f9d73539b09b04b6b9bb6dc441776a32a82b14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:22 +0000
Subject: [PATCH 25/37] fix: reading the parameters does not discard what was
 computed or the supplied power spectrum

---
 python/coffe/coffe.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index e039502..8c012c2 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1160,11 +1160,15 @@ cdef class Coffe:
             for key in dir(self.__class__) \
             if key != 'parameters' and hasattr(getattr(self.__class__, key), '__set__')
         }
+        # only some of the properties can be set, which is found out on another
+        # object, since setting anything on this one discards what was computed
+        # (or the power spectrum supplied by the user)
+        probe = self.__class__()
         writable = {}
         for key in properties:
             try:
-                setattr(self, key, getattr(self, key))
-                writable[key] = getattr(self, key)
+                setattr(probe, key, getattr(probe, key))
+                writable[key] = properties[key]
             except AttributeError:
                 pass
         return writable
-- 
2.43.0


From eb54f8bdefc590e4a590ca47c82e2e81341adca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:49 +0000
Subject: [PATCH 26/37] fix: settings of the computation and contributions keep
 the supplied power spectrum

---
 python/coffe/coffe.pyx | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 8c012c2..d34a859 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -988,15 +988,15 @@ cdef class Coffe:
         self._free_average_covariance_multipoles()
 
 
-    def _free_except_parameters(self):
+    def _free_computed(self):
         self._free_background()
-        self._free_power_spectrum()
         self._free_integrals()
-        self._free_corrfunc()
-        self._free_multipoles()
-        self._free_average_multipoles()
-        self._free_covariance_multipoles()
-        self._free_average_covariance_multipoles()
+        self._free_results()
+
+
+    def _free_except_parameters(self):
+        self._free_computed()
+        self._free_power_spectrum()
 
 
     def __dealloc__(self):
@@ -1674,7 +1674,7 @@ cdef class Coffe:
         )
 
         self._parameters.bessel_bins = int(value)
-        self._free_except_parameters()
+        self._free_computed()
 
 
     def integral(self, *, r : float, n : int, l : int):
@@ -2473,7 +2473,7 @@ cdef class Coffe:
         else:
             self._parameters.integration_1d_type = _invert_dict(_allowed_integration_1d_types)[value]
 
-        self._free_except_parameters()
+        self._free_computed()
 
 
     @property
@@ -2494,7 +2494,7 @@ cdef class Coffe:
             1,
         )
         self._parameters.integration_1d_prec = float(value)
-        self._free_except_parameters()
+        self._free_computed()
 
 
     @property
@@ -2531,7 +2531,7 @@ cdef class Coffe:
         _check_parameter('background_sampling', value, int, 0, self._max_size)
 
         self._parameters.background_bins = value
-        self._free_except_parameters()
+        self._free_computed()
 
 
     @property
@@ -2622,7 +2622,7 @@ cdef class Coffe:
     @has_d1.setter
     def has_d1(self, value : bool):
         self._parameters.correlation_contrib.d1 = int(bool(value))
-        self._free_except_parameters()
+        self._free_computed()
 
 
     @property
@@ -2636,7 +2636,7 @@ cdef class Coffe:
     @has_d2.setter
     def has_d2(self, value : bool):
         self._parameters.correlation_contrib.d2 = int(bool(value))
-        self._free_except_parameters()
+        self._free_computed()
 
 
     @property
@@ -2651,7 +2651,7 @@ cdef class Coffe:
     @has_g1.setter
     def has_g1(self, value : bool):
         self._parameters.correlation_contrib.g1 = int(bool(value))
-        self._free_except_parameters()
+        self._free_computed()
 
 
     @property
@@ -2666,7 +2666,7 @@ cdef class Coffe:
     @has_g2.setter
     def has_g2(self, value : bool):
         self._parameters.correlation_contrib.g2 = int(bool(value))
-        self._free_except_parameters()
+        self._free_computed()
 
 
     @property
@@ -2681,7 +2681,7 @@ cdef class Coffe:
     @has_g3.setter
     def has_g3(self, value : bool):
         self._parameters.correlation_contrib.g3 = int(bool(value))
-        self._free_except_parameters()
+        self._free_computed()
 
 
     @property
@@ -2696,7 +2696,7 @@ cdef class Coffe:
     @has_g4.setter
     def has_g4(self, value : bool):
         self._parameters.correlation_contrib.g4 = int(bool(value))
-        self._free_except_parameters()
+        self._free_computed()
 
 
     @property
@@ -2711,7 +2711,7 @@ cdef class Coffe:
     @has_g5.setter
     def has_g5(self, value : bool):
         self._parameters.correlation_contrib.g5 = int(bool(value))
-        self._free_except_parameters()
+        self._free_computed()
 
 
     def reset_contributions(self):
-- 
2.43.0


From 0eb34a8593d528e5a18fc6a58cc3112b327f5a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:19 +0000
Subject: [PATCH 27/37] fix: setting omega_baryon does not count the cold dark
 matter it replaces against the budget

---
 python/coffe/coffe.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index d34a859..0ffb66e 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1250,7 +1250,7 @@ cdef class Coffe:
         _check_parameter('omega_baryon', value, (int, float), -100, 100)
         if not np.allclose(value, self.omega_baryon):
             # we set the value, rebalance the Omega budget, and free memory
-            self._check_omegas(value, self.omega_cdm, self.omega_gamma)
+            self._check_omegas(value, self.omega_gamma)
             self._parameters.Omega0_baryon = value / self._coeff
             self._parameters.Omega0_cdm = self._parameters.Omega0_m - self._parameters.Omega0_baryon - self._parameters.Omega0_nu
             self._balance_content()
-- 
2.43.0


From 68d75160bad7289c969225ca76427764daef3836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:32 +0000
Subject: [PATCH 28/37] fix: recomputing does not replace the power spectrum
 supplied by the user

---
 python/coffe/coffe.pyx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 0ffb66e..c03ecb6 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3212,7 +3212,7 @@ cdef class Coffe:
         if not self._background.flag or recompute:
             self._background_init()
 
-        if not self._power_spectrum_flag or recompute:
+        if not self._power_spectrum_flag:
             self._power_spectrum_init()
 
         if not self._integral.size or recompute:
@@ -3288,7 +3288,7 @@ cdef class Coffe:
         if not self._background.flag or recompute:
             self._background_init()
 
-        if not self._power_spectrum_flag or recompute:
+        if not self._power_spectrum_flag:
             self._power_spectrum_init()
 
         if not self._integral.size or recompute:
@@ -3350,7 +3350,7 @@ cdef class Coffe:
         if not self._background.flag or recompute:
             self._background_init()
 
-        if not self._power_spectrum_flag or recompute:
+        if not self._power_spectrum_flag:
             self._power_spectrum_init()
 
         if not self._integral.size or recompute:
@@ -3391,7 +3391,7 @@ cdef class Coffe:
         if not self._background.flag or recompute:
             self._background_init()
 
-        if not self._power_spectrum_flag or recompute:
+        if not self._power_spectrum_flag:
             self._power_spectrum_init()
 
         if not self._integral.size or recompute:
@@ -3434,7 +3434,7 @@ cdef class Coffe:
         if not self._background.flag or recompute:
             self._background_init()
 
-        if not self._power_spectrum_flag or recompute:
+        if not self._power_spectrum_flag:
             self._power_spectrum_init()
 
         if not self._integral.size or recompute:
@@ -3479,7 +3479,7 @@ cdef class Coffe:
         ):
             raise ValueError('Mismatching lengths for covariance parameters (`z_mean`, `deltaz`, `number_density1`, `number_density2`, `pixelsize`, `fsky`')
 
-        if not self._power_spectrum_flag or recompute:
+        if not self._power_spectrum_flag:
             self._power_spectrum_init()
 
         if not self._background.flag or recompute:
@@ -3533,7 +3533,7 @@ cdef class Coffe:
         ):
             raise ValueError('Mismatching lengths for average covariance parameters (`z_min`, `z_max`, `deltaz`, `number_density1`, `number_density2`, `pixelsize`, `fsky`')
 
-        if not self._power_spectrum_flag or recompute:
+        if not self._power_spectrum_flag:
             self._power_spectrum_init()
 
         if not self._background.flag or recompute:
-- 
2.43.0


From 549e7b93d7fb1300e9c008f6cf64927a1f02f687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:08 +0000
Subject: [PATCH 29/37] fix: the power spectrum may be supplied at any
 redshift, as documented

---
 python/coffe/coffe.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index c03ecb6..4a7d31b 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -2977,7 +2977,12 @@ cdef class Coffe:
         if not all(k1 < k2 for k1, k2 in zip(k, k[1:])):
             raise ValueError('The input k array must be sorted, without duplicates')
 
-        # TODO error checking for z and rescaling if z > 0
+        _check_parameter('z', z, (int, float), 0, 15)
+
+        # the power spectrum is stored at z = 0
+        if z > 0:
+            growth = self.growth_factor(z)
+            pk = [_ / growth**2 for _ in pk]
 
         self._free_power_spectrum()
         self._parameters.k_min = k[0]
-- 
2.43.0


From 52422394bafa6a4768a7f86e60bcd651e44e14cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:07 +0000
Subject: [PATCH 30/37] fix: a missing string in the settings file is reported
 instead of being copied from an unset pointer

---
 src/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 2e7f8f5..d65a2e9 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -115,7 +115,6 @@ static int parse_string(
 {
     const char *temp_value;
     int error = config_lookup_string(conf, setting, &temp_value);
-    strcpy(value, (char *)temp_value);
     if (safe == COFFE_TRUE){
         if (error != 1){
             fprintf(stderr,
@@ -130,6 +129,7 @@ static int parse_string(
             return EXIT_FAILURE;
         }
     }
+    snprintf(value, COFFE_MAX_STRLEN, "%s", temp_value);
     return EXIT_SUCCESS;
 }
 
-- 
2.43.0


From dcdae051892aecc8d47a8c8fa3c4721d68cf494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:07 +0000
Subject: [PATCH 31/37] fix: a list missing from the settings file keeps its
 default instead of pointing at released memory

---
 src/parser.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index d65a2e9..a124447 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -190,6 +190,7 @@ static int parse_int_array(
     }
     *values_len = (size_t)config_setting_length(type);
 
+    free(*values);
     *values = (int *)coffe_malloc(sizeof(int) * *values_len);
 
     int temp_value;
@@ -221,6 +222,7 @@ static int parse_double_array(
     }
     *values_len = (size_t)config_setting_length(type);
 
+    free(*values);
     *values = (double *)coffe_malloc(sizeof(double) * *values_len);
 
     double temp_value;
@@ -1084,9 +1086,6 @@ int coffe_parser_init(
         par->output_type == MULTIPOLES ||
         par->output_type == COVARIANCE_MULTIPOLES
     ){
-        if (par->z_mean_len)
-            free(par->z_mean);
-        par->z_mean_len = 0;
         parse_double_array(conf, "z_mean", &par->z_mean, &par->z_mean_len);
         for (size_t i = 0; i < par->z_mean_len; ++i){
             if (par->z_mean[i] <= 0){
@@ -1121,9 +1120,6 @@ int coffe_parser_init(
         par->output_type == COVARIANCE_MULTIPOLES ||
         par->output_type == COVARIANCE_AVERAGE_MULTIPOLES
     ){
-        if (par->multipole_values_len)
-            free(par->multipole_values);
-        par->multipole_values_len = 0;
         parse_int_array(conf, "multipoles", &par->multipole_values, &par->multipole_values_len);
     }
 
-- 
2.43.0


From a4632880598a886c24dd8643c30aad5485b810c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:07 +0000
Subject: [PATCH 32/37] fix: without the interpolation option the default
 method is used instead of an unset value

---
 src/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index a124447..9e8dcc7 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1103,7 +1103,7 @@ int coffe_parser_init(
 
     /* the interpolation method for GSL */
     {
-    int temp;
+    int temp = par->interp_method;
     parse_int(conf, "interpolation", &temp, COFFE_FALSE);
     par->interp_method = (enum coffe_interp1d_type)temp;
     }
-- 
2.43.0


From b845511296aaf3fd7400f23a0b0584b5752c9202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:07 +0000
Subject: [PATCH 33/37] fix: separations given by a step are generated from it
 instead of being left empty

---
 src/parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index 9e8dcc7..b781af9 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1149,6 +1149,15 @@ int coffe_parser_init(
             fprintf(stderr, "You need to specify one of `separations_sampling` and `separations_step`");
             exit(EXIT_FAILURE);
         }
+        if (error2 == EXIT_SUCCESS){
+            if (!(step > 0) || !(xmax > xmin)){
+                print_error_verbose(PROG_VALUE_ERROR, "separations_step");
+                exit(EXIT_FAILURE);
+            }
+            /* the last point does not exceed the maximum, allowing for rounding */
+            sampling = (int)ceil((xmax - xmin) / step - 1e-10);
+            xmax = xmin + sampling * step;
+        }
         if (par->sep_len)
             free(par->sep);
         par->sep = coffe_generate_range(xmin, xmax, sampling);
-- 
2.43.0


From 93721e8ef9ecaa2a4997804ff2a31adf6c149952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:07 +0000
Subject: [PATCH 34/37] fix: the covariance of averaged multipoles uses the
 separations of the settings file

---
 src/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index b781af9..38dd9ca 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1128,7 +1128,8 @@ int coffe_parser_init(
         par->output_type == CORRFUNC ||
         par->output_type == MULTIPOLES ||
         par->output_type == AVERAGE_MULTIPOLES ||
-        par->output_type == COVARIANCE_MULTIPOLES
+        par->output_type == COVARIANCE_MULTIPOLES ||
+        par->output_type == COVARIANCE_AVERAGE_MULTIPOLES
     ){
         double xmin, xmax;
         parse_double(conf, "separations_min", &xmin, COFFE_TRUE);
-- 
2.43.0


From c80eec89f39477ce1a3473436875cd3f3b5d8d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:28 +0000
Subject: [PATCH 35/37] fix: the command line writes the averaged multipoles it
 computes

---
 src/output.c | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/output.c b/src/output.c
index 6623d99..169f808 100644
--- a/src/output.c
+++ b/src/output.c
@@ -168,6 +168,41 @@ static int output_multipoles(
 }
 
 
+static int output_average_multipoles(
+    const char *filepath,
+    const struct coffe_correlation_contributions cc,
+    const coffe_average_multipoles_array_t *ramp
+)
+{
+    char header[COFFE_MAX_STRLEN];
+    snprintf(
+        header, COFFE_MAX_STRLEN,
+        "# correlation contributions: "
+    );
+    output_correlation_contributions_header(cc, header);
+    strncat(header, "\n", COFFE_MAX_STRLEN);
+    strncat(header, "# z_min, z_max, l, sep, value\n", COFFE_MAX_STRLEN);
+
+    FILE *data = fopen(filepath, "a");
+    fprintf(data, header);
+
+    for (size_t i = 0; i < ramp->size; ++i){
+        fprintf(
+            data,
+            "%.10e %.10e %d %.10e %.10e\n",
+            ramp->array[i].coords.z_min,
+            ramp->array[i].coords.z_max,
+            ramp->array[i].coords.l,
+            ramp->array[i].coords.separation,
+            ramp->array[i].value
+        );
+    }
+    fclose(data);
+
+    return EXIT_SUCCESS;
+}
+
+
 static int output_covariance(
     const char *filepath,
     const struct coffe_correlation_contributions cc,
@@ -372,6 +407,12 @@ int coffe_output_init(
         output_multipoles(filepath, par->correlation_contrib, mp);
     }
 
+    /* redshift averaged multipoles */
+    else if (par->output_type == AVERAGE_MULTIPOLES){
+        snprintf(filepath, COFFE_MAX_STRLEN, "%saverage_multipoles.dat", prefix);
+        output_average_multipoles(filepath, par->correlation_contrib, ramp);
+    }
+
     /* covariance of multipoles */
     else if (par->output_type == COVARIANCE_MULTIPOLES){
         snprintf(filepath, COFFE_MAX_STRLEN, "%scovariance_multipoles.dat", prefix);
-- 
2.43.0


From 8a5a9752fc153256e8aaeca41d16bb5e1b3685d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:28 +0000
Subject: [PATCH 36/37] fix: the header of the averaged covariance names the
 columns that are written

---
 src/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index 169f808..aa88d1a 100644
--- a/src/output.c
+++ b/src/output.c
@@ -426,7 +426,7 @@ int coffe_output_init(
         );
 
         FILE *output = fopen(filepath, "w");
-        fprintf(output, "# sep[Mpc/h]\tsep[Mpc/h]\tresult\n");
+        fprintf(output, "# sep1, sep2, l1, l2, z_min, z_max, value\n");
 
         for (size_t i = 0; i < cov_ramp->size; ++i){
             fprintf(
-- 
2.43.0


From eb9d75601279556e72da04d4e9fb057b4d5bf15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:28 +0000
Subject: [PATCH 37/37] fix: the averaged multipoles are released at the end of
 the program

---
 src/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.c b/src/main.c
index b633b6e..170fbc2 100644
--- a/src/main.c
+++ b/src/main.c
@@ -179,6 +179,8 @@ int main(int argc, char *argv[])
 
     coffe_multipoles_free(&mp);
 
+    coffe_average_multipoles_free(&ramp);
+
     coffe_covariance_free(&cov_mp);
 
     coffe_average_covariance_free(&cov_ramp);
-- 
2.43.0

