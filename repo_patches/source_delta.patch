From 5ab5974a2b6f043d144896bc5a5bde745f3d6b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:07 +0000
Subject: [PATCH 01/51] fix: check the index range before reading the set flag
 in the input getters

---
 src/xrtm_interface.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index ee7a45d..b8646f1 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3913,10 +3913,10 @@ double xrtm_get_g(xrtm_data *d, int i_layer) {
           return XRTM_DBL_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_g[i_layer], xrtm_input_index_to_name(INPUT_G), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_g[i_layer], xrtm_input_index_to_name(INPUT_G), XRTM_DBL_ERROR);
+
      return d->g0[i_layer];
 }
 
@@ -4134,10 +4134,10 @@ int xrtm_get_n_coef(xrtm_data *d, int i_layer) {
           return XRTM_INT_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], "n_coef", XRTM_INT_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], "n_coef", XRTM_INT_ERROR);
+
      return d->n_coef_layer[i_layer];
 }
 
@@ -4150,9 +4150,10 @@ double xrtm_get_coef(xrtm_data *d, int i_layer, int i_elem, int i_coef) {
           return XRTM_DBL_ERROR;
      }
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
+
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], xrtm_input_index_to_name(INPUT_COEF), XRTM_DBL_ERROR);
 
-     CHECK_INDEX_RANGE(i_layer, d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_elem,  d->n_elem,                "i_elem",  "n_elem",                XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_coef,  d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
 
@@ -4368,10 +4369,10 @@ int xrtm_set_omega_n(xrtm_data *d, double *omega) {
 
 double xrtm_get_omega(xrtm_data *d, int i_layer) {
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_omega[i_layer], xrtm_input_index_to_name(INPUT_OMEGA), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_omega[i_layer], xrtm_input_index_to_name(INPUT_OMEGA), XRTM_DBL_ERROR);
+
      return d->omega0[i_layer];
 }
 
@@ -4519,10 +4520,10 @@ int xrtm_set_ltau_n(xrtm_data *d, double *ltau) {
 
 double xrtm_get_ltau(xrtm_data *d, int i_layer) {
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_ltau[i_layer], xrtm_input_index_to_name(INPUT_LTAU), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_ltau[i_layer], xrtm_input_index_to_name(INPUT_LTAU), XRTM_DBL_ERROR);
+
      return d->ltau0[i_layer];
 }
 
@@ -4638,10 +4639,10 @@ double xrtm_get_kernel_ampfac(xrtm_data *d, int i_kernel) {
 
      CHECK_N_KERNELS_NOT_ZERO(d, XRTM_DBL_ERROR);
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_ampfac[i_kernel], xrtm_input_index_to_name(INPUT_KERNEL_AMPFAC),  XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_kernel, d->n_kernels, "i_kernel", "n_kernels", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_ampfac[i_kernel], xrtm_input_index_to_name(INPUT_KERNEL_AMPFAC),  XRTM_DBL_ERROR);
+
      return d->kernel_ampfac[i_kernel];
 }
 
@@ -4703,14 +4704,14 @@ double xrtm_get_kernel_params(xrtm_data *d, int i_kernel, int i_param) {
 
      CHECK_N_KERNELS_NOT_ZERO(d, XRTM_DBL_ERROR);
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_params[i_kernel][i_param], xrtm_input_index_to_name(INPUT_KERNEL_PARAMS), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_kernel, d->n_kernels, "i_kernel", "n_kernels", XRTM_DBL_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]);
 
      CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params",  XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_params[i_kernel][i_param], xrtm_input_index_to_name(INPUT_KERNEL_PARAMS), XRTM_DBL_ERROR);
+
      return d->kernel_params[i_kernel][i_param];
 }
 
-- 
2.43.0


From b146508d70729b94669826c0eb602e22740703dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:07 +0000
Subject: [PATCH 02/51] fix: reject negative kernel indexes in
 xrtm_get_kernel()

---
 src/xrtm_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index b8646f1..09c9544 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2787,7 +2787,7 @@ int xrtm_get_n_kernel_quad(xrtm_data *d) {
  ******************************************************************************/
 enum xrtm_kernel_type xrtm_get_kernel(xrtm_data *d, int i_kernel) {
 
-     if (i_kernel > d->n_kernels - 1) {
+     if (i_kernel < 0 || i_kernel > d->n_kernels - 1) {
           fprintf(stderr, "ERROR: invalid kernel index: %d\n", i_kernel);
           return XRTM_INT_ERROR;
      }
-- 
2.43.0


From 0877411f1b652d9fe1a8f19d9a29394a6b386be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:08 +0000
Subject: [PATCH 03/51] fix: return XRTM_DBL_ERROR from the double valued
 getters

---
 src/xrtm_interface.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 09c9544..3f175b3 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3583,7 +3583,7 @@ double xrtm_get_theta_0(xrtm_data *d) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_SOLAR)) {
           fprintf(stderr, "ERROR: model not initialized for solar sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_mu_0, xrtm_input_index_to_name(INPUT_THETA_0), XRTM_DBL_ERROR);
@@ -3776,7 +3776,7 @@ double xrtm_get_surface_b(xrtm_data *d) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_surface_b, xrtm_input_index_to_name(INPUT_SURFACE_B), XRTM_DBL_ERROR);
@@ -3831,7 +3831,7 @@ double xrtm_get_surface_b_l(xrtm_data *d, int i_deriv) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
-- 
2.43.0


From 72838b5f6b8c422e8b3f20f353cb228f3a703c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:08 +0000
Subject: [PATCH 04/51] fix: return XRTM_INT_ERROR when derivatives are not
 enabled

---
 src/xrtm_support.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_support.h b/src/xrtm_support.h
index 3eaf101..97f0e48 100644
--- a/src/xrtm_support.h
+++ b/src/xrtm_support.h
@@ -169,7 +169,7 @@ extern "C" {
      if (! (d->options & XRTM_OPTION_CALC_DERIVS)) {				\
           fprintf(stderr, "ERROR: can't set linearized inputs when model is "		\
                   "not initialized to evaluate derivatives\n");			\
-          return -1;								\
+          return XRTM_INT_ERROR;						\
      }										\
 } while (0)
 
-- 
2.43.0


From d46eff1400004b43877ad0370d1f789c87735d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:08 +0000
Subject: [PATCH 05/51] fix: do not store output optical depths when
 xrtm_set_out_taus() is refused

---
 src/xrtm_interface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 3f175b3..ec746bf 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3233,9 +3233,10 @@ int xrtm_set_out_taus(xrtm_data *d, double *out_taus) {
                fprintf(stderr, "ERROR: invalid value for out_taus[%d]: %e, must be >= zero\n", i, out_taus[i]);
                return XRTM_INT_ERROR;
           }
+     }
 
+     for (i = 0; i < d->n_ulevels; ++i)
           d->utaus[i] = out_taus[i];
-     }
 
      d->set_flags_utaus = 1;
 
-- 
2.43.0


From d5b57e750db382a933584ff84396977634493ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:08 +0000
Subject: [PATCH 06/51] fix: do not store coefficients when xrtm_set_coef_1/n()
 are refused

---
 src/xrtm_interface.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index ec746bf..0e3d719 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -4050,6 +4050,15 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
           }
      }
 
+     for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
+          if ((n_coef_layer ? n_coef_layer[ii] : d->n_coef) > 1) {
+               if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
+                    fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
+                    return -1;
+               }
+          }
+     }
+
      for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
           if (! n_coef_layer) {
                d->n_coef_layer [i] = d->n_coef;
@@ -4060,13 +4069,6 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
                d->n_coef_layer2[i] = MIN(n_coef_layer[ii], d->n_coef2);
           }
 
-          if (d->n_coef_layer[i] > 1) {
-               if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
-                    fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
-                    return -1;
-               }
-          }
-
           for (j = 0; j < d->n_elem; ++j) {
                for (k = 0; k < d->n_coef_layer[i]; ++k) {
                     d->coef0[i][j][k] = coef[ii][j][k];
-- 
2.43.0


From edacd4ebd81175e59cb0f6fc5d978c5a1456bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:52 +0000
Subject: [PATCH 07/51] fix: leave the handle unchanged when the solar or
 output angles are refused

---
 src/xrtm_interface.c | 57 ++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 0e3d719..75e7cdf 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2647,25 +2647,29 @@ static int solution_preprocess(xrtm_data *d) {
 /*******************************************************************************
  *
  ******************************************************************************/
-static int mu_0_singularity_adjust(xrtm_data *d) {
+static int mu_0_singularity_adjust(xrtm_data *d, double mu_0_0, int n_umus,
+                                   double *out_thetas, double *mu_0) {
 
      int i;
-     int n;
 
      int count;
 
      double a;
+     double x;
 
-     d->mu_0 = d->mu_0_0;
-
-     n = d->set_flags_umus ? d->n_quad + d->n_umus : d->n_quad;
+     *mu_0 = mu_0_0;
 
      count = 0;
-     for (i = 0; i < n; ++i) {
-          a = fabs(singularity_adjust_auto(d->qx[i], d->mu_0_0,
+     for (i = 0; i < d->n_quad + n_umus; ++i) {
+          if (i < d->n_quad || ! out_thetas)
+               x = d->qx[i];
+          else
+               x = cos(out_thetas[i - d->n_quad]*D2R);
+
+          a = fabs(singularity_adjust_auto(x, mu_0_0,
                    d->misc_input.threshold_mu_0_singlarity));
-          if (a != d->mu_0_0) {
-               d->mu_0 = a;
+          if (a != mu_0_0) {
+               *mu_0 = a;
                count++;
           }
           if (count > 1) {
@@ -2674,9 +2678,6 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
           }
      }
 
-     if (count > 0)
-          set_deps(d, DEP_MASK_MU_0, 0, d->n_layers);
-
      return 0;
 }
 
@@ -3276,6 +3277,8 @@ int xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) {
      int j;
      int jj;
 
+     double mu_0;
+
      if (d->n_umus == 0) {
           fprintf(stderr, "ERROR: model not initialized for user defined output angles (n_out_thetas == 0)\n");
           return XRTM_INT_ERROR;
@@ -3289,6 +3292,13 @@ int xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) {
           }
      }
 
+     if (d->set_flags_mu_0) {
+          if (mu_0_singularity_adjust(d, d->mu_0_0, d->n_umus, out_thetas, &mu_0)) {
+               fprintf(stderr, "ERROR: mu_0_singularity_adjust()\n");
+               return XRTM_INT_ERROR;
+          }
+     }
+
      ii = d->n_quad;
      for (i = 0; i < d->n_umus; ++i) {
           d->qx[ii] = cos(out_thetas[i]*D2R);
@@ -3313,11 +3323,10 @@ int xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) {
 
      update_n_four2(d, d->set_flags_mu_0, 1);
 
-     if (d->set_flags_mu_0) {
-          if (mu_0_singularity_adjust(d)) {
-               fprintf(stderr, "ERROR: mu_0_singularity_adjust()\n");
-               return XRTM_INT_ERROR;
-          }
+     if (d->set_flags_mu_0 && d->mu_0 != mu_0) {
+          d->mu_0 = mu_0;
+
+          set_deps(d, DEP_MASK_MU_0, 0, d->n_layers);
      }
 
      if (d->solvers & XRTM_SOLVERS_INTERNAL && d->misc_input.use_symmetric_form)
@@ -3548,6 +3557,9 @@ double xrtm_get_F_0(xrtm_data *d) {
  ******************************************************************************/
 int xrtm_set_theta_0(xrtm_data *d, double theta_0) {
 
+     double mu_0;
+     double mu_0_0;
+
      if (! (d->options & XRTM_OPTION_SOURCE_SOLAR)) {
           fprintf(stderr, "ERROR: model not initialized for solar sources\n");
           return XRTM_INT_ERROR;
@@ -3559,15 +3571,18 @@ int xrtm_set_theta_0(xrtm_data *d, double theta_0) {
           return XRTM_INT_ERROR;
      }
 
-     d->mu_0_0 = cos(theta_0*D2R);
-
-     update_n_four2(d, 1, d->set_flags_umus);
+     mu_0_0 = cos(theta_0*D2R);
 
-     if (mu_0_singularity_adjust(d)) {
+     if (mu_0_singularity_adjust(d, mu_0_0, d->set_flags_umus ? d->n_umus : 0, NULL, &mu_0)) {
           fprintf(stderr, "ERROR: mu_0_singularity_adjust()\n");
           return XRTM_INT_ERROR;
      }
 
+     d->mu_0_0 = mu_0_0;
+     d->mu_0   = mu_0;
+
+     update_n_four2(d, 1, d->set_flags_umus);
+
      if (d->solvers & XRTM_SOLVERS_INTERNAL && d->n_kernels > 0)
           brdf_aux_calc_mu_0(&d->kernel_aux, d->n_quad + d->n_umus, d->mu_0, d->n_kernel_quad, d->kernel_qx);
 
-- 
2.43.0


From 3a253d5f5f081945a3cdc336c9a50d768e66e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:51 +0000
Subject: [PATCH 08/51] fix: mark the layers below a changed layer, whose
 direct beam depends on it

---
 src/xrtm_interface.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 75e7cdf..b3ccb1a 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -434,8 +434,11 @@ static void set_deps(xrtm_data *d, int dep, int i_layer, int n_layers) {
           d->dep_flags_diff_bound_input [i] |= dep;
      }
 
-     for (i = i_layer; i < n_layers; ++i) {
+     for (i = i_layer; i < n_layers; ++i)
           d->dep_flags_opt_props   [i]      |= dep;
+
+     /* the direct beam and the layer sources also depend on the layers above */
+     for (i = i_layer; i < d->n_layers; ++i) {
 /*
           d->dep_flags_beam_params0[i]      |= dep;
 */
@@ -451,8 +454,10 @@ static void set_deps(xrtm_data *d, int dep, int i_layer, int n_layers) {
                d->dep_flags_phase_vecs_q0    [i][j] |= dep;
                d->dep_flags_phase_vecs_u0    [i][j] |= dep;
                d->dep_flags_local_r_t_u_w    [i][j] |= dep;
-               d->dep_flags_layer_R_T_S_U_W_V[i][j] |= dep;
           }
+
+          for (j = i_layer; j < d->n_layers; ++j)
+               d->dep_flags_layer_R_T_S_U_W_V[i][j] |= dep;
      }
 }
 
-- 
2.43.0


From cd863a3a32c26d8b06e8ac2ebbe426c0c7c7f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:21 +0000
Subject: [PATCH 09/51] fix: recompute saved layer operators when F_0, levels_b
 or doub_d_tau change

---
 src/xrtm_model.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 32ff345..1dec0b5 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2093,6 +2093,15 @@ static int layer_R_T_S_U_W_V_deps(xrtm_data *d) {
      int deps = opt_props_deps(d) | beam_params_deps(d) | phase_vecs_deps_q0(d) |
                 local_r_t_u_w_deps(d);
 
+     if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+          deps |= DEP_MASK_F_0;
+
+     if (d->options & XRTM_OPTION_SOURCE_THERMAL)
+          deps |= DEP_MASK_LEVELS_B | DEP_MASK_LEVELS_B_L;
+
+     if (d->solvers & XRTM_SOLVER_DOUB_ADD)
+          deps |= DEP_MASK_DOUB_D_TAU;
+
      if (d->solvers & XRTM_SOLVER_PADE_ADD)
           deps |= DEP_MASK_PADE_PARAMS;
 
-- 
2.43.0


From 0111b392aefff1c21a7a452ca9544570299cbcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:21 +0000
Subject: [PATCH 10/51] fix: recompute the boundary input when the surface
 emission or the derivatives of the isotropic inputs change

---
 src/xrtm_model.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 1dec0b5..9a6e51e 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4170,7 +4170,9 @@ if (d->derivs.layers[d->n_layers][i]) {
 static int diff_bound_input_deps(xrtm_data *d) {
 
      return opt_props_deps(d) | beam_params_deps(d) |
-            DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_BOT | DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_BRDF | DEP_MASK_BRDF_L;
+            DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_TOP_L |
+            DEP_MASK_F_ISO_BOT | DEP_MASK_F_ISO_BOT_L |
+            DEP_MASK_SURFACE_B | DEP_MASK_SURFACE_B_L | DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_BRDF | DEP_MASK_BRDF_L;
 }
 
 
-- 
2.43.0


From fd8c3791d0aff791ef72573ad45bc090aae58009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:20 +0000
Subject: [PATCH 11/51] fix: recompute the boundary input when the output
 angles change

---
 src/xrtm_model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 9a6e51e..3e9e37a 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4172,7 +4172,7 @@ static int diff_bound_input_deps(xrtm_data *d) {
      return opt_props_deps(d) | beam_params_deps(d) |
             DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_TOP_L |
             DEP_MASK_F_ISO_BOT | DEP_MASK_F_ISO_BOT_L |
-            DEP_MASK_SURFACE_B | DEP_MASK_SURFACE_B_L | DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_BRDF | DEP_MASK_BRDF_L;
+            DEP_MASK_SURFACE_B | DEP_MASK_SURFACE_B_L | DEP_MASK_UMUS | DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_BRDF | DEP_MASK_BRDF_L;
 }
 
 
-- 
2.43.0


From 35fd4fa72fe1bc87ae3a6e0857111b70840bfc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:37 +0000
Subject: [PATCH 12/51] fix: separate the last two input names and list every
 input code

---
 src/xrtm_interface.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index b3ccb1a..bf9f094 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -184,7 +184,7 @@ static const char *xrtm_input_names[] = {
      "kernel_ampfac",
      "kernel_ampfac_l",
      "kernel_params",
-     "kernel_params_l"
+     "kernel_params_l",
      "kernel_funcs"
 };
 
@@ -229,6 +229,7 @@ enum xrtm_input_type {
 };
 
 static long xrtm_input_types[] = {
+     0,
      INPUT_DOUB_D_TAU,
      INPUT_PADE_PARAMS,
      INPUT_SOS_PARAMS,
@@ -261,7 +262,8 @@ static long xrtm_input_types[] = {
      INPUT_KERNEL_AMPFAC,
      INPUT_KERNEL_AMPFAC_L,
      INPUT_KERNEL_PARAMS,
-     INPUT_KERNEL_PARAMS_L
+     INPUT_KERNEL_PARAMS_L,
+     INPUT_KERNEL_FUNCS
 };
 
 
-- 
2.43.0


From 5a1ae95358a86c5e84dd9ef0dfff8e47cb4618fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:37 +0000
Subject: [PATCH 13/51] fix: keep the highest mask bit when a list of names or
 values is combined

---
 misc/gindex_name_value.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/misc/gindex_name_value.c b/misc/gindex_name_value.c
index 4c064a9..617c7b5 100644
--- a/misc/gindex_name_value.c
+++ b/misc/gindex_name_value.c
@@ -186,8 +186,8 @@ long name_list_to_mask(char *s, long *values, const char **names, int n, const c
      char *token;
      char *lasts;
 
-     int temp;
-     int mask;
+     long temp;
+     long mask;
 
      mask = 0;
 
@@ -233,7 +233,7 @@ long value_list_to_mask(long *values, int n_values) {
 
      int i;
 
-     int mask;
+     long mask;
 
      mask = 0;
      for (i = 0; i < n_values; ++i)
-- 
2.43.0


From 8c38c87cfc6021eea62456eeddd4acb396459a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:39 +0000
Subject: [PATCH 14/51] fix: list the names of the eigenvalue solvers under the
 same conditions as their codes

---
 src/xrtm_support.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_support.c b/src/xrtm_support.c
index 57f926a..841c426 100644
--- a/src/xrtm_support.c
+++ b/src/xrtm_support.c
@@ -17,8 +17,12 @@
  *
  ******************************************************************************/
 static const char *eigen_solver_gen_real_names[] = {
+#ifdef HAVE_FORTRAN_COMPILER
      "asymtx",
+#endif
+#ifdef HAVE_EISPACK_LIBRARY
      "eispack",
+#endif
      "lapack"
 };
 
@@ -40,7 +44,9 @@ GINDEX_NAME_VALUE_TEMPLATE(eigen_solver_gen_real, "eigen solver general real", N
 
 
 static const char *eigen_solver_gen_complex_names[] = {
+#ifdef HAVE_EISPACK_LIBRARY
      "eispack",
+#endif
      "lapack"
 };
 
-- 
2.43.0


From e050abae73f9103cb11a54084851c4c311ee434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:26 +0000
Subject: [PATCH 15/51] fix: do not write beyond the caller's buffer when
 listing the entries of a mask

---
 misc/gindex_name_value.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/misc/gindex_name_value.c b/misc/gindex_name_value.c
index 617c7b5..b6c275c 100644
--- a/misc/gindex_name_value.c
+++ b/misc/gindex_name_value.c
@@ -108,11 +108,11 @@ int mask_to_index_list(long mask, long *values, int n_values, int *indexes, int
      ii = 0;
 
      for (i = 0; i < n_values; ++i) {
-          if (mask & values[i])
-               indexes[ii++] = i;
-
           if (ii >= length)
                return ii;
+
+          if (mask & values[i])
+               indexes[ii++] = i;
      }
 
      return ii;
@@ -169,12 +169,16 @@ char *mask_to_name_list(long mask, long *values, int n_values, const char **name
           if (mask & values[i]) {
                if (flag)
                     n += snprintf(s + n, length - n, ",");
-               n += snprintf(s + n, length - n, "%s", names[i]);
+               if (n < length)
+                    n += snprintf(s + n, length - n, "%s", names[i]);
+               if (n >= length)
+                    return s;
                flag = 1;
           }
      }
 
-     s[n] = '\0';
+     if (n < length)
+          s[n] = '\0';
 
      return s;
 }
@@ -217,11 +221,11 @@ int mask_to_value_list(long mask, long *values, int n_values, long *values2, int
      ii = 0;
 
      for (i = 0; i < n_values; ++i) {
-          if (mask & values[i])
-               values2[ii++] = values[i];
-
           if (ii >= length)
                return ii;
+
+          if (mask & values[i])
+               values2[ii++] = values[i];
      }
 
      return ii;
-- 
2.43.0


From 45df1f0f59056612cbd5784ab7f3cc240117ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:32 +0000
Subject: [PATCH 16/51] fix: flags_fill_meta*: the aggregated and of the flags
 starts from true

---
 src/xrtm_utility.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_utility.c b/src/xrtm_utility.c
index 5cd2e13..16fd8ce 100644
--- a/src/xrtm_utility.c
+++ b/src/xrtm_utility.c
@@ -173,7 +173,7 @@ int flags_fill_meta(uchar *flags, int n) {
      meta = (flags_meta_data *) ((uchar *) flags - sizeof(flags_meta_data));
 
      meta->or_   = 0;
-     meta->and_  = 0;
+     meta->and_  = 1;
      meta->count = 0;
      for (i = 0; i < n; ++i) {
           if (flags[i]) {
@@ -201,14 +201,15 @@ int flags_fill_meta2(uchar **flags, int m, int n) {
      meta = (flags_meta_data *) ((uchar *) flags - sizeof(flags_meta_data));
 
      meta->or_   = 0;
-     meta->and_  = 0;
+     meta->and_  = 1;
      meta->count = 0;
      for (i = 0; i < m; ++i) {
           if (flags_or(flags[i], n)) {
                meta->or_  = 1;
                meta->count += flags_count(flags[i], n);
           }
-          else
+
+          if (! flags_and(flags[i], n))
                meta->and_ = 0;
      }
 
-- 
2.43.0


From 9673ff41d264836363947f46ad53e29d7c030e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:59 +0000
Subject: [PATCH 17/51] fix: unions of the azimuth-dependent derivative flags
 are built from the azimuth-dependent tables

---
 src/xrtm_interface.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index bf9f094..0dd2997 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5457,17 +5457,17 @@ int xrtm_update_varied_layers(xrtm_data *d) {
           /*--------------------------------------------------------------------
            *
            *------------------------------------------------------------------*/
-          derivs_union_logical_or2(d->n_layers + 1, d->n_derivs, d->derivs.layers,      d->derivs.layers_m_union);
+          derivs_union_logical_or2(d->n_layers + 1, d->n_derivs, d->derivs.layers_m,    d->derivs.layers_m_union);
 /*
           derivs_union_logical_or2(d->n_layers + 1, d->n_derivs, d->derivs.total,       d->derivs.total_m_union);
 */
-          derivs_union_logical_or2(d->n_layers + 1, d->n_derivs, d->derivs.stacks,      d->derivs.stacks_m_union);
-          derivs_union_logical_or2(d->n_layers + 1, d->n_derivs, d->derivs.sources,     d->derivs.sources_m_union);
+          derivs_union_logical_or2(d->n_layers + 1, d->n_derivs, d->derivs.stacks_m,    d->derivs.stacks_m_union);
+          derivs_union_logical_or2(d->n_layers + 1, d->n_derivs, d->derivs.sources_m,   d->derivs.sources_m_union);
           if (d->options & XRTM_OPTION_SOURCE_SOLAR)
-               derivs_union_logical_or2(d->n_layers + 1, d->n_derivs, d->derivs.beam, d->derivs.beam_union);
+               derivs_union_logical_or2(d->n_layers + 1, d->n_derivs, d->derivs.beam_m, d->derivs.beam_m_union);
 
           if (d->options & XRTM_OPTION_SOURCE_THERMAL)
-               derivs_union_logical_or2(d->n_layers + 1, d->n_derivs, d->derivs.thermal, d->derivs.thermal_m_union);
+               derivs_union_logical_or2(d->n_layers + 1, d->n_derivs, d->derivs.thermal_m, d->derivs.thermal_m_union);
 
           derivs_union_bitwise_or2(d->n_layers + 1, d->n_derivs, d->derivs.adding_up_m,   d->derivs.adding_up_m_union);
           derivs_union_bitwise_or2(d->n_layers + 1, d->n_derivs, d->derivs.adding_down_m, d->derivs.adding_down_m_union);
-- 
2.43.0


From 8864964202b14629c1dc7367cd9b03f3bc67cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:46 +0000
Subject: [PATCH 18/51] fix: do not write past the basis matrices of a layer
 with a single coefficient

---
 src/xrtm_scatter.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index f2d741f..79e3b83 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -634,9 +634,11 @@ void basic_matrix(int i_four, int n_coef, int n_stokes, double mu, double ***A)
           if (n_stokes >= 4)
                A[0][3][3] = 1.;
 
-          A[1][0][0] = mu;
-          if (n_stokes >= 4)
-               A[1][3][3] = mu;
+          if (n_coef >= 2) {
+               A[1][0][0] = mu;
+               if (n_stokes >= 4)
+                    A[1][3][3] = mu;
+          }
 
           if (n_coef >= 3) {
                leg_poly(3, mu, P);
-- 
2.43.0


From a55461b9b8a3e0c395bf4f717a3b2ea3b554ce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:49 +0000
Subject: [PATCH 19/51] fix: recalculate saved derivatives when the set of
 varied layers is updated

---
 src/xrtm_interface.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 0dd2997..2eafc85 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5394,6 +5394,13 @@ int xrtm_update_varied_layers(xrtm_data *d) {
      }
 
 
+     /*-------------------------------------------------------------------------
+      * Saved derivatives that were not active before have not been calculated.
+      *-----------------------------------------------------------------------*/
+     set_deps(d, DEP_MASK_F_ISO_TOP_L | DEP_MASK_F_ISO_BOT_L | DEP_MASK_LEVELS_B_L | DEP_MASK_SURFACE_B_L | DEP_MASK_G_L |
+                 DEP_MASK_COEF_L | DEP_MASK_OMEGA_L | DEP_MASK_LTAU_L | DEP_MASK_BRDF_L, 0, d->n_layers);
+
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-- 
2.43.0


From 200a0885aecb48cd5b7e0cb63673ab49162c055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:56 +0000
Subject: [PATCH 20/51] fix: pass the leading dimensions of transposed
 non-square operands to gemm

---
 misc/gmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/gmatrix.h b/misc/gmatrix.h
index 4a9dde5..817ce1b 100644
--- a/misc/gmatrix.h
+++ b/misc/gmatrix.h
@@ -443,7 +443,7 @@ void XCAT(prefix_, mat_gxgxmx)(int trans_a, type_ **a, int trans_b, type_ **b,
      char transb = trans_b ? 't' : 'n';
 
      XCAT(prefix_, gemm_)(&transb, &transa, &n, &m, &o, &alpha,
-                          (type_ *) *b, &n, (type_ *) *a, &o, &beta, (type_ *) *c, &n);
+                          (type_ *) *b, trans_b ? &o : &n, (type_ *) *a, trans_a ? &m : &o, &beta, (type_ *) *c, &n);
 #else
      long i;
      long j;
-- 
2.43.0


From cff2da603523c69f1288192765aa57866d37f887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:07 +0000
Subject: [PATCH 21/51] fix: dmat_add_trans and dmat_sub_trans used the output
 on the diagonal and lost the sign of the transposed difference

---
 misc/gmatrix.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/misc/gmatrix.h b/misc/gmatrix.h
index 817ce1b..7034a11 100644
--- a/misc/gmatrix.h
+++ b/misc/gmatrix.h
@@ -212,7 +212,7 @@ void XCAT(prefix_, mat_add_trans)(type_ **a, type_ **c, long m, long n) {
      long j;
 
      for (i = 0; i < m; ++i) {
-          c[i][i] += c[i][i];
+          c[i][i] = a[i][i] + a[i][i];
 
           for (j = i + 1; j < n; ++j) {
                c[i][j] = c[j][i] = a[i][j] + a[j][i];
@@ -258,10 +258,11 @@ void XCAT(prefix_, mat_sub_trans)(type_ **a, type_ **c, long m, long n) {
      long j;
 
      for (i = 0; i < m; ++i) {
-          c[i][i] -= c[i][i];
+          c[i][i] = a[i][i] - a[i][i];
 
           for (j = i + 1; j < n; ++j) {
-               c[i][j] = c[j][i] = a[i][j] - a[j][i];
+               c[i][j] = a[i][j] - a[j][i];
+               c[j][i] = -c[i][j];
           }
      }
 }
-- 
2.43.0


From 01d5a25d470d45c957a158043fe080a06080b43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:57 +0000
Subject: [PATCH 22/51] fix: non-square blocks in insert_matrix2_*() and
 dsym_mul_kernel()

---
 src/xrtm_matrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_matrix.c b/src/xrtm_matrix.c
index 667c366..58557fb 100644
--- a/src/xrtm_matrix.c
+++ b/src/xrtm_matrix.c
@@ -549,7 +549,7 @@ static void dsym_mul_kernel1(double **a, double **b, double alpha, long m, long
 void dsym_mul_kernel(double **a, double **b, double alpha, long m, long o,
                      double **c, double beta, int flag, int thresh) {
 
-     dgemm_("n", "n", &m, &o, &o, &alpha, *b, &m, *a, &o, &beta, *c, &m);
+     dgemm_("n", "n", &m, &m, &o, &alpha, *b, &m, *a, &o, &beta, *c, &m);
 /*
      dsym_mul_kernel0(a, b, alpha, m, o, c, beta, 0);
 
@@ -908,7 +908,7 @@ void insert_matrix2_d(int m, int n, int i, int j, double **a, double alpha, doub
      int jjj;
 
      i *= m;
-     j *= m;
+     j *= n;
 
      if (alpha ==  1.) {
           for (ii = i, iii = 0; iii < m; ++ii, ++iii) {
-- 
2.43.0


From 2209a755e64be4ac0df6d51759a4e31e0c9ed112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:02 +0000
Subject: [PATCH 23/51] fix: derivatives for layers whose sources or operators
 vary alone were skipped when adding layers

---
 src/xrtm_adding.c | 57 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/src/xrtm_adding.c b/src/xrtm_adding.c
index c99ea4c..1d020e0 100644
--- a/src/xrtm_adding.c
+++ b/src/xrtm_adding.c
@@ -733,6 +733,15 @@ if (! d || flag3) {
           if (derivs[i] == ADDING_S_S)
                add_ref_s_s(AXX, R23, S12_l[i], S21_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
+          if ((! flag && derivs[i] == ADDING_U_L) || (flag && derivs[i] == ADDING_L_U))
+               add_ref_u_l(PXX, i1, AXX, BXX, CXX, T12, R21, R23, R23_l[i], R13_l[i], n, w1, w2, work);
+          else
+          if ((! flag && derivs[i] == ADDING_L_U) || (flag && derivs[i] == ADDING_U_L))
+               add_ref_l_u(PXX, i1, AXX, BXX, CXX, R23, R12_l[i], T12_l[i], R21_l[i], T21_l[i], R13_l[i], n, w1, w2, work);
+          else
+          if (derivs[i] == ADDING_L_L)
+               add_ref_l_l(PXX, i1, AXX, BXX, CXX, T12, S12, R21, R23, S32, R12_l[i], T12_l[i], R21_l[i], T21_l[i], R23_l[i], R13_l[i], S31_l[i], n, atran_l[i], v1, v2, w1, w2, work);
+          else
           if ((! flag && derivs[i] == ADDING_U_B) || (flag && derivs[i] == ADDING_B_U))
                add_ref_u_b(PXX, i1, AXX, BXX, CXX, T12, S12, R21, R23, R23_l[i], S32_l[i], R13_l[i], S31_l[i], n, atran, v1, v2, w1, w2, work);
           else
@@ -1306,6 +1315,9 @@ if (flag) {
           if (derivs[i] == ADDING_U_S)
                add_all_u_s_up(AXX, R23, S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_s_u_up(AXX, R23, S12_l[i], S21_l[i], S31_l[i], n, atran, v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R23, S12_l[i], S21_l[i], S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
 #ifdef DEBUG
@@ -1347,6 +1359,9 @@ if (flag) {
           if (derivs[i] == ADDING_U_S)
                add_all_s_u_up(AXX, R21, S32_l[i], S23_l[i], S13_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_u_s_up(AXX, R21, S21_l[i], S12_l[i], S13_l[i], n, 1., v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R21, S32_l[i], S23_l[i], S21_l[i], S12_l[i], S13_l[i], n, atran, v1, v2);
 #ifdef DEBUG
@@ -1522,6 +1537,9 @@ void layer_add_all(double **R12, double **T12, double *S12,
           if (derivs[i] == ADDING_U_S)
                add_all_u_s_up(AXX, R23, S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_s_u_up(AXX, R23, S12_l[i], S21_l[i], S31_l[i], n, atran, v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R23, S12_l[i], S21_l[i], S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
@@ -1621,6 +1639,9 @@ if (flag) {
           if (derivs[i] == ADDING_U_S)
                add_all_s_u_up(AXX, R21, S32_l[i], S23_l[i], S13_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_u_s_up(AXX, R21, S21_l[i], S12_l[i], S13_l[i], n, 1., v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R21, S32_l[i], S23_l[i], S21_l[i], S12_l[i], S13_l[i], n, atran, v1, v2);
 
@@ -1777,6 +1798,9 @@ if (! d || flag2) {
           if (derivs[i] == ADDING_U_S)
                add_all_u_s_up(AXX, R23, S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_s_u_up(AXX, R23, S12_l[i], S21_l[i], S31_l[i], n, atran, v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R23, S12_l[i], S21_l[i], S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
 #ifdef DEBUG
@@ -1823,6 +1847,9 @@ if (! d || flag2) {
           if (derivs[i] == ADDING_U_S)
                add_all_s_u_up(AXX, R21, S32_l[i], S23_l[i], S13_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_u_s_up(AXX, R21, S21_l[i], S12_l[i], S13_l[i], n, 1., v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R21, S32_l[i], S23_l[i], S21_l[i], S12_l[i], S13_l[i], n, atran, v1, v2);
 #ifdef DEBUG
@@ -1934,15 +1961,30 @@ if (! d || flag2) {
           if (derivs[i] == ADDING_U_S)
                add_all_u_s_up(AXX, R23, S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_s_u_up(AXX, R23, S12_l[i], S21_l[i], S31_l[i], n, atran, v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R23, S12_l[i], S21_l[i], S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_U_L)
+               add_all_u_l_up(PXX, i1, AXX, BXX, CXX, T12, R21, T32, R23_l[i], T32_l[i], R13_l[i], T31_l[i], n, w1, w2, work);
+          else
+          if (derivs[i] == ADDING_L_U)
+               add_all_l_u_up(PXX, i1, AXX, BXX, CXX, DXX, R23, T32, R12_l[i], T12_l[i], R21_l[i], T21_l[i], R13_l[i], T31_l[i], n, w1, w2, work);
+          else
+          if (derivs[i] == ADDING_L_L)
+               add_all_l_l_up(PXX, i1, AXX, BXX, CXX, T12, R21, R23, T32, R12_l[i], T12_l[i], R21_l[i], T21_l[i], R23_l[i], T32_l[i], R13_l[i], T31_l[i], n, w1, w2, work);
+          else
           if (derivs[i] == ADDING_U_B)
                add_all_u_b_up(PXX, i1, AXX, BXX, CXX, T12, S12, R21, T32, R23_l[i], T32_l[i], S32_l[i], R13_l[i], T31_l[i], S31_l[i], n, atran, v1, v2, w1, w2, work);
           else
           if (derivs[i] == ADDING_B_U)
                add_all_b_u_up(PXX, i1, AXX, BXX, CXX, DXX, R23, T32, S32, R12_l[i], T12_l[i], S12_l[i], R21_l[i], T21_l[i], S21_l[i], R13_l[i], T31_l[i], S31_l[i], n, atran, atran_l[i], v1, v2, w1, w2, work);
           else
+          if (derivs[i] == ADDING_S_B)
+               add_all_s_b_up(PXX, i1, AXX, BXX, CXX, T12, S12, R21, R23, T32, S12_l[i], S21_l[i], R23_l[i], T32_l[i], S32_l[i], R13_l[i], T31_l[i], S31_l[i], n, atran, v1, v2, w1, w2, work);
+          else
           if (derivs[i] == ADDING_B_S)
                add_all_b_s_up(PXX, i1, AXX, BXX, CXX, DXX, R23, T32, S32, R12_l[i], T12_l[i], S12_l[i], R21_l[i], T21_l[i], S21_l[i], S32_l[i], R13_l[i], T31_l[i], S31_l[i], n, atran, atran_l[i], v1, v2, w1, w2, work);
           else
@@ -2005,15 +2047,30 @@ if (! d || flag2) {
           if (derivs[i] == ADDING_U_S)
                add_all_s_u_up(AXX, R21, S32_l[i], S23_l[i], S13_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_u_s_up(AXX, R21, S21_l[i], S12_l[i], S13_l[i], n, 1., v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R21, S32_l[i], S23_l[i], S21_l[i], S12_l[i], S13_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_U_L)
+               add_all_l_u_up(PXX, i1, AXX, BXX, CXX, DXX, R21, T12, R32_l[i], T32_l[i], R23_l[i], T23_l[i], R31_l[i], T13_l[i], n, w1, w2, work);
+          else
+          if (derivs[i] == ADDING_L_U)
+               add_all_u_l_up(PXX, i1, AXX, BXX, CXX, T32, R23, T12, R21_l[i], T12_l[i], R31_l[i], T13_l[i], n, w1, w2, work);
+          else
+          if (derivs[i] == ADDING_L_L)
+               add_all_l_l_up(PXX, i1, AXX, BXX, CXX, T32, R23, R21, T12, R32_l[i], T32_l[i], R23_l[i], T23_l[i], R21_l[i], T12_l[i], R31_l[i], T13_l[i], n, w1, w2, work);
+          else
           if (derivs[i] == ADDING_U_B)
                add_all_b_u_up(PXX, i1, AXX, BXX, CXX, DXX, R21, T12, S12, R32_l[i], T32_l[i], S32_l[i], R23_l[i], T23_l[i], S23_l[i], R31_l[i], T13_l[i], S13_l[i], n, atran, atran_l[i], v1, v2, w1, w2, work);
           else
           if (derivs[i] == ADDING_B_U)
                add_all_u_b_up(PXX, i1, AXX, BXX, CXX, T32, S32, R23, T12, R21_l[i], T12_l[i], S12_l[i], R31_l[i], T13_l[i], S13_l[i], n, atran, v1, v2, w1, w2, work);
           else
+          if (derivs[i] == ADDING_S_B)
+               add_all_b_s_up(PXX, i1, AXX, BXX, CXX, DXX, R21, T12, S12, R32_l[i], T32_l[i], S32_l[i], R23_l[i], T23_l[i], S23_l[i], S12_l[i], R31_l[i], T13_l[i], S13_l[i], n, atran, atran_l[i], v1, v2, w1, w2, work);
+          else
           if (derivs[i] == ADDING_B_S)
                add_all_s_b_up(PXX, i1, AXX, BXX, CXX, T32, S32, R23, R21, T12, S32_l[i], S23_l[i], R21_l[i], T12_l[i], S12_l[i], R31_l[i], T13_l[i], S13_l[i], n, atran, v1, v2, w1, w2, work);
           else
-- 
2.43.0


From bf0e9ab979d4dbb592bec15b29c566150f0c2cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:21 +0000
Subject: [PATCH 24/51] fix: level radiances: derivatives for combinations of
 layers varying in sources and operators were skipped or lacked the boundary
 radiance terms

---
 src/xrtm_radiance.c | 75 +++++++++++++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 19 deletions(-)

diff --git a/src/xrtm_radiance.c b/src/xrtm_radiance.c
index 72041c3..cda844f 100644
--- a/src/xrtm_radiance.c
+++ b/src/xrtm_radiance.c
@@ -189,7 +189,7 @@ void radiance_boa_ref(int n_quad, int n_derivs,
           w3 = get_work1(&work, WORK_DXX);
 
           for (i = 0; i < n_derivs; ++i) {
-               if (derivs[i] == ADDING_U_U) {
+               if (derivs[i] == ADDING_U_U || derivs[i] == ADDING_U_S) {
                     dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, I2_m_l[i]);
 
                     dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
@@ -216,7 +216,36 @@ void radiance_boa_ref(int n_quad, int n_derivs,
                     dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
                }
                else
-               if (derivs[i] == ADDING_L_U) {
+               if (derivs[i] == ADDING_S_U || derivs[i] == ADDING_S_S) {
+                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v1);
+                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
+
+                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
+
+                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
+
+                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
+               }
+               else
+               if (derivs[i] == ADDING_S_L || derivs[i] == ADDING_S_B) {
+                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w2);
+
+                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
+
+                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
+                    dvec_add(v1, v2, v1, n_quad);
+                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
+
+                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
+
+                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
+                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
+                    dvec_add(v1, v2, I2_p_l[i], n_quad);
+
+                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
+               }
+               else
+               if (derivs[i] == ADDING_L_U || derivs[i] == ADDING_L_S) {
                     dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
 
                     dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
@@ -233,7 +262,7 @@ void radiance_boa_ref(int n_quad, int n_derivs,
                     dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
                }
                else
-               if (derivs[i] == ADDING_L_L) {
+               if (derivs[i] == ADDING_L_L || derivs[i] == ADDING_L_B) {
                     dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
                     dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);
                     dmat_add(w2, w3, w2,  n_quad, n_quad);
@@ -436,36 +465,40 @@ void radiance_boa_all(int n_quad, int n_derivs,
                     dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
                }
                else
-               if (derivs[i] == ADDING_S_U) {
-/*
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
+               if (derivs[i] == ADDING_S_U || derivs[i] == ADDING_S_S) {
+                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v1);
+                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
+                    dvec_add(v1, v2, v1, n_quad);
+                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
+
+                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
+
+                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
+
+                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
+               }
+               else
+               if (derivs[i] == ADDING_S_L || derivs[i] == ADDING_S_B) {
+                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w2);
 
                     dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
 
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
                     dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
                     dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
                     dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
                     dvec_add(v1, v2, v1, n_quad);
                     dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
 
                     dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
 
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
+                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
+                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
+                    dvec_add(v1, v2, I2_p_l[i], n_quad);
 
                     dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-*/
-                    dvec_copy(I2_m_l[i], S12_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
                }
                else
-               if (derivs[i] == ADDING_L_U) {
+               if (derivs[i] == ADDING_L_U || derivs[i] == ADDING_L_S) {
                     dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
 
                     dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
@@ -486,7 +519,7 @@ void radiance_boa_all(int n_quad, int n_derivs,
                     dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
                }
                else
-               if (derivs[i] == ADDING_L_L) {
+               if (derivs[i] == ADDING_L_L || derivs[i] == ADDING_L_B) {
                     dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
                     dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);
                     dmat_add(w2, w3, w2,  n_quad, n_quad);
@@ -495,6 +528,8 @@ void radiance_boa_all(int n_quad, int n_derivs,
 
                     dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
                     dvec_add(v1, v2, v1, n_quad);
+                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
+                    dvec_add(v1, v2, v1, n_quad);
                     dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
                     dvec_add(v1, v2, v1, n_quad);
                     dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
@@ -505,6 +540,8 @@ void radiance_boa_all(int n_quad, int n_derivs,
                     dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
                     dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
                     dvec_add(v1, v2, I2_p_l[i], n_quad);
+
+                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
                }
                else
                if (derivs[i] == ADDING_B_U || derivs[i] == ADDING_B_S) {
-- 
2.43.0


From 17e73b53825f63bbdd176a7b9ba27f22bec16f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:25 +0000
Subject: [PATCH 25/51] fix: surface kernels other than the direct and diffuse
 one never set their derivatives

---
 src/xrtm_brdf.c | 221 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 215 insertions(+), 6 deletions(-)

diff --git a/src/xrtm_brdf.c b/src/xrtm_brdf.c
index 6e5fe1d..7bd34c3 100644
--- a/src/xrtm_brdf.c
+++ b/src/xrtm_brdf.c
@@ -388,10 +388,20 @@ static double roujean_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrt
 
      /* Roujean 1992, Wanner 1995, Spurr 2004 (contains a typo in eq for f) */
 
+     int ii;
+
      double a = 1.;
 
      double delta;
 
+     if (flags_or(derivs, n_derivs)) {
+          for (ii = 0; ii < n_derivs; ++ii) {
+               if (derivs[ii]) {
+                    f_l[ii] = 0.;
+               }
+          }
+     }
+
      if (phi < 0.) a = -1.;
 
      delta = (aux2->roujean.a + sqrt(aux2->roujean.b - aux2->roujean.c * aux->cos_phi[k])) / PI;
@@ -436,7 +446,7 @@ static void li_aux(brdf_aux_data *aux, kernel_aux_data *aux2, int i, int j, int
 
 
 
-static void li_common(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_brdf_geometry brdf_geom, int i, int j, int k, double phi, int n_derivs, uchar *derivs, double *p, double **p_l, double *p_, double *q) {
+static void li_common(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_brdf_geometry brdf_geom, int i, int j, int k, double phi, int n_derivs, uchar *derivs, double *p, double **p_l, double *p_, double *q, double *h_, double *cos_t_) {
 
      /* Wanner 1995, Spurr 2004 (contains a typo in eq for d(x)) */
 
@@ -459,6 +469,70 @@ static void li_common(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_brdf_
           *q = 1.;
      else
           *q = 1. - (acos(cos_t) - sqrt(1. - cos_t * cos_t) * cos_t) / PI ;
+
+     *h_       = h;
+     *cos_t_   = cos_t;
+}
+
+
+
+static void li_common_l(brdf_aux_data *aux, kernel_aux_data *aux2, int i, int j, int k, double *p_l, double p_, double h, double cos_t, double *p__l, double *q_l, double *r_l) {
+
+     double tan_theta_i_p_l;
+     double tan_theta_r_p_l;
+
+     double cos_theta_i_p_l;
+     double sin_theta_i_p_l;
+
+     double cos_theta_r_p_l;
+     double sin_theta_r_p_l;
+
+     double a_l;
+     double b_l;
+     double c_l;
+     double d_l;
+     double e_l;
+     double g_l;
+     double h_l;
+     double cos_t_l;
+
+     tan_theta_i_p_l = p_l[0] * aux->tan_theta[i];
+     tan_theta_r_p_l = p_l[0] * aux->tan_theta[j];
+
+     /* d(atan(x)) = cos(atan(x))^2 dx */
+     a_l             = aux2->li.cos_theta_i_p * aux2->li.cos_theta_i_p * tan_theta_i_p_l;
+     b_l             = aux2->li.cos_theta_r_p * aux2->li.cos_theta_r_p * tan_theta_r_p_l;
+
+     cos_theta_i_p_l = -aux2->li.sin_theta_i_p * a_l;
+     sin_theta_i_p_l =  aux2->li.cos_theta_i_p * a_l;
+
+     cos_theta_r_p_l = -aux2->li.sin_theta_r_p * b_l;
+     sin_theta_r_p_l =  aux2->li.cos_theta_r_p * b_l;
+
+     a_l             = cos_theta_i_p_l * aux2->li.cos_theta_r_p + aux2->li.cos_theta_i_p * cos_theta_r_p_l;
+     b_l             = sin_theta_i_p_l * aux2->li.sin_theta_r_p + aux2->li.sin_theta_i_p * sin_theta_r_p_l;
+
+     c_l             = 2. * (aux2->li.tan_theta_i_p * tan_theta_i_p_l + aux2->li.tan_theta_r_p * tan_theta_r_p_l);
+     d_l             = 2. * (tan_theta_i_p_l * aux2->li.tan_theta_r_p + aux2->li.tan_theta_i_p * tan_theta_r_p_l);
+     e_l             = 2. * (aux2->li.tan_theta_i_p * tan_theta_i_p_l * aux2->li.tan_theta_r_p2 + aux2->li.tan_theta_i_p2 * aux2->li.tan_theta_r_p * tan_theta_r_p_l);
+
+    *r_l             = -cos_theta_i_p_l / (aux2->li.cos_theta_i_p * aux2->li.cos_theta_i_p) - cos_theta_r_p_l / (aux2->li.cos_theta_r_p * aux2->li.cos_theta_r_p);
+
+     g_l             = (p_l[1] - aux2->li.g * *r_l) / aux2->li.r;
+
+    *p__l            = (a_l + b_l * aux->cos_phi[k] - p_ * cos_theta_r_p_l) / aux2->li.cos_theta_r_p;
+
+     if (h > 0.)
+          h_l = (c_l - d_l * aux->cos_phi[k] + e_l * aux->sin_phi2[k]) / (2. * h);
+     else
+          h_l = 0.;
+
+     cos_t_l         = g_l * h + aux2->li.g * h_l;
+
+     if (cos_t > 1.) /* overlap area = 0 */
+          *q_l = 0.;
+     else
+          *q_l = 2. * sqrt(1. - cos_t * cos_t) * cos_t_l / PI;
 }
 
 
@@ -468,10 +542,27 @@ static double li_sparse_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum x
 
      /* Wanner 1995, Spurr 2004 (contains a typo) */
 
+     int ii;
+
      double p_;
+     double p__l;
      double q;
+     double q_l;
+     double r_l;
+     double h;
+     double cos_t;
+
+     li_common(aux, aux2, brdf_geom, i, j, k, phi, n_derivs, derivs, p, p_l, &p_, &q, &h, &cos_t);
 
-     li_common(aux, aux2, brdf_geom, i, j, k, phi, n_derivs, derivs, p, p_l, &p_, &q);
+     if (flags_or(derivs, n_derivs)) {
+          for (ii = 0; ii < n_derivs; ++ii) {
+               if (derivs[ii]) {
+                    li_common_l(aux, aux2, i, j, k, p_l[ii], p_, h, cos_t, &p__l, &q_l, &r_l);
+
+                    f_l[ii] = .5 * p__l - q_l * aux2->li.r - q * r_l;
+               }
+          }
+     }
 
      return .5 * p_ - q * aux2->li.r;
 }
@@ -482,10 +573,27 @@ static double li_dense_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xr
 
      /* Wanner 1995, Spurr 2004 (contains a typo) */
 
+     int ii;
+
      double p_;
+     double p__l;
      double q;
+     double q_l;
+     double r_l;
+     double h;
+     double cos_t;
 
-     li_common(aux, aux2, brdf_geom, i, j, k, phi, n_derivs, derivs, p, p_l, &p_, &q);
+     li_common(aux, aux2, brdf_geom, i, j, k, phi, n_derivs, derivs, p, p_l, &p_, &q, &h, &cos_t);
+
+     if (flags_or(derivs, n_derivs)) {
+          for (ii = 0; ii < n_derivs; ++ii) {
+               if (derivs[ii]) {
+                    li_common_l(aux, aux2, i, j, k, p_l[ii], p_, h, cos_t, &p__l, &q_l, &r_l);
+
+                    f_l[ii] = (p__l - p_ * (q_l / q + r_l / aux2->li.r)) / (q * aux2->li.r);
+               }
+          }
+     }
 
      return p_ / (q * aux2->li.r) - 2.;
 }
@@ -508,9 +616,19 @@ static double ross_thin_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum x
 
      /* Wanner 1995, Spurr 2004 */
 
+     int ii;
+
      double cos_ksi;
      double ksi;
 
+     if (flags_or(derivs, n_derivs)) {
+          for (ii = 0; ii < n_derivs; ++ii) {
+               if (derivs[ii]) {
+                    f_l[ii] = 0.;
+               }
+          }
+     }
+
      cos_ksi = aux2->ross.a + aux2->ross.b * aux->cos_phi[k];
 
      ksi     = acos(cos_ksi);
@@ -524,9 +642,19 @@ static double ross_thick_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum
 
      /* Wanner 1995, Spurr 2004 */
 
+     int ii;
+
      double cos_ksi;
      double ksi;
 
+     if (flags_or(derivs, n_derivs)) {
+          for (ii = 0; ii < n_derivs; ++ii) {
+               if (derivs[ii]) {
+                    f_l[ii] = 0.;
+               }
+          }
+     }
+
      cos_ksi     = aux2->ross.a + aux2->ross.b * aux->cos_phi[k];
 
      ksi         = acos(cos_ksi);
@@ -570,10 +698,20 @@ static double hapke_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_
 
      /* Spurr 2004 (contains a typo) */
 
+     int ii;
+
+     double a;
+     double b;
+     double c;
+     double d_l;
+     double gamma;
+     double gamma_l;
+     double R_ir_l;
      double cos_ksi;
      double ksi;
      double P;
      double B;
+     double B_l;
 
      cos_ksi = aux2->hapke.a + aux2->hapke.b * aux->cos_phi[k];
 
@@ -581,7 +719,27 @@ static double hapke_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_
 
      ksi     = acos(cos_ksi);
 
-     B       = aux2->hapke.c / (p[2] + tan(ksi / 2.));
+     c       = p[2] + tan(ksi / 2.);
+
+     B       = aux2->hapke.c / c;
+
+     if (flags_or(derivs, n_derivs)) {
+          for (ii = 0; ii < n_derivs; ++ii) {
+               if (derivs[ii]) {
+                    gamma   = sqrt(1. - p[0]);
+                    gamma_l = -p_l[ii][0] / (2. * gamma);
+
+                    a       = 2. * aux->cos_theta[i];
+                    b       = 2. * aux->cos_theta[j];
+
+                    R_ir_l  = p_l[ii][0] / ((aux->cos_theta[i] + aux->cos_theta[j]) * 4.);
+                    d_l     = -aux2->hapke.d * (a / (1. + a * gamma) + b / (1. + b * gamma)) * gamma_l;
+                    B_l     = (p_l[ii][1] * p[2] + p[1] * p_l[ii][2] - B * p_l[ii][2]) / c;
+
+                    f_l[ii] = R_ir_l * ((1. + B) * P + aux2->hapke.d - 1.) + aux2->hapke.R_ir * (B_l * P + d_l);
+               }
+          }
+     }
 
      return aux2->hapke.R_ir * ((1. + B) * P + aux2->hapke.d - 1.);
 }
@@ -614,20 +772,45 @@ static double rahman_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm
 
      /* Rahman 1993b, Spurr 2004 (contains 2 errors) */
 
+     int ii;
+
+     double a;
+     double a_l;
+     double b;
+     double b_l;
      double cos_ksi;
      double P;
+     double P_l;
      double delta;
      double R;
+     double R_l;
 
      cos_ksi     = aux2->rahman.a + aux2->rahman.b * aux->cos_phi[k];
 
-     P           = (1. - aux2->rahman.gamma1_2) / pow((1. + aux2->rahman.gamma1_2 + aux2->rahman.c * cos_ksi), 1.5);
+     a           = 1. + aux2->rahman.gamma1_2 + aux2->rahman.c * cos_ksi;
+
+     P           = (1. - aux2->rahman.gamma1_2) / pow(a, 1.5);
 
      delta       = sqrt(aux2->rahman.d - aux2->rahman.e * aux->cos_phi[k]);
 
      R           = (1. - p[0]) / (1. + delta);
 
-     return p[0] * P * (1. + R) * pow(aux2->rahman.g, p[2] - 1.);
+     b           = pow(aux2->rahman.g, p[2] - 1.);
+
+     if (flags_or(derivs, n_derivs)) {
+          for (ii = 0; ii < n_derivs; ++ii) {
+               if (derivs[ii]) {
+                    a_l     = 2. * (p[1] + cos_ksi) * p_l[ii][1];
+                    P_l     = -2. * p[1] * p_l[ii][1] / pow(a, 1.5) - 1.5 * P * a_l / a;
+                    R_l     = -p_l[ii][0] / (1. + delta);
+                    b_l     = log(aux2->rahman.g) * b * p_l[ii][2];
+
+                    f_l[ii] = p_l[ii][0] * P * (1. + R) * b + p[0] * (P_l * (1. + R) * b + P * R_l * b + P * (1. + R) * b_l);
+               }
+          }
+     }
+
+     return p[0] * P * (1. + R) * b;
 }
 
 
@@ -651,17 +834,25 @@ static void cox_munk_aux(brdf_aux_data *aux, kernel_aux_data *aux2, int i, int j
 
 static double cox_munk_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_brdf_geometry brdf_geom, int i, int j, int k, double phi, int n_derivs, uchar *derivs, double *p, double **p_l, double *f_l) {
 
+     int ii;
+
      double a;
+     double a_l;
      double cos_ksi;
      double lambda;
      double r_p;
+     double r_p_l;
      double r_m;
+     double r_m_l;
      double c;
+     double c_l;
      double R;
+     double R_l;
      double gamma;
      double gamma2;
      double tau;
      double P;
+     double P_l;
 
      cos_ksi     = aux2->cox_munk.a + aux2->cox_munk.b *  aux->cos_phi[k];
 /*
@@ -687,6 +878,24 @@ static double cox_munk_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xr
 /*
      P           = 1. / (aux2->cox_munk.d * gamma2*gamma2) * exp(-tau*tau / p[0]);
 */
+     if (flags_or(derivs, n_derivs)) {
+          for (ii = 0; ii < n_derivs; ++ii) {
+               if (derivs[ii]) {
+                    a_l     = p_l[ii][1] * lambda;
+                    c_l     = p_l[ii][1] / (2. * c);
+
+                    r_p_l   = (a_l - c_l - r_p * (a_l + c_l)) / (a + c);
+                    r_m_l   = -c_l * (1. + r_m) / (lambda + c);
+
+                    R_l     = r_p * r_p_l + r_m * r_m_l;
+
+                    P_l     = P * (tau*tau / p[0] - 1.) / p[0] * p_l[ii][0];
+
+                    f_l[ii] = R_l * P + R * P_l;
+               }
+          }
+     }
+
      return R * P;
 }
 
-- 
2.43.0


From 006de9233418a3bd1663116dc66b8672592bb595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:07 +0000
Subject: [PATCH 26/51] fix: get_single() initialised its outputs with the
 angle and azimuth dimensions transposed

---
 src/xrtm_model.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 3e9e37a..d81c972 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4380,14 +4380,14 @@ static void get_single(xrtm_data *d, int n_phis, double **phis, double ****I_p,
       *
       *-----------------------------------------------------------------------*/
 /*
-     init_array4_d(I_p, d->n_ulevels, n_phis, n_mus2, d->n_stokes, 0.);
+     init_array4_d(I_p, d->n_ulevels, n_mus2, n_phis, d->n_stokes, 0.);
 */
-     init_array4_d(I_m, d->n_ulevels, n_phis, n_mus2, d->n_stokes, 0.);
+     init_array4_d(I_m, d->n_ulevels, n_mus2, n_phis, d->n_stokes, 0.);
 
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
-          init_array5_d(I_p_l, d->n_ulevels, d->n_derivs, n_phis, n_mus2, d->n_stokes, 0.);
+          init_array5_d(I_p_l, d->n_ulevels, d->n_derivs, n_mus2, n_phis, d->n_stokes, 0.);
 /*
-          init_array5_d(I_m_l, d->n_ulevels, d->n_derivs, n_phis, n_mus2, d->n_stokes, 0.);
+          init_array5_d(I_m_l, d->n_ulevels, d->n_derivs, n_mus2, n_phis, d->n_stokes, 0.);
 */
      }
 
-- 
2.43.0


From 14404ed4561f14508a2a285b9681cffde0e107bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:28 +0000
Subject: [PATCH 27/51] fix: build_scat_matrix_gc() dropped the sign of the
 (4,3) element of the scattering matrix

---
 src/xrtm_scatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index 79e3b83..d17072f 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -431,7 +431,7 @@ void build_scat_matrix_gc(int n_coef, double **gsf, double **coefs, double **F,
           F[0][1] = a[4];
           F[1][0] = a[4];
           F[2][3] = a[5];
-          F[3][2] = a[5];
+          F[3][2] = -a[5];
 
           F[1][1] = F[0][0];
           F[2][2] = F[3][3];
-- 
2.43.0


From 6ed7ccca2166154106c62445035966792b109c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:28 +0000
Subject: [PATCH 28/51] fix: single scattering had the wrong sign of U for
 azimuth differences between 180 and 360 degrees

---
 src/xrtm_scatter.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index d17072f..960ef63 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -1071,6 +1071,9 @@ void scat_vector_rotate_hovenier(int n_stokes, double mu, double mu_prime, doubl
      else
           S1 = 2.* sqrt(1. - cos_sig1_2) * cos_sig1;
 
+     if (sin(D2R*d_phi) < 0.)
+          S1 = -S1;
+
      if (n_stokes >= 2)
           P2[1] =  P1_01*C1;
      if (n_stokes >= 3)
@@ -1123,6 +1126,9 @@ void scat_vector_rotate_hovenier_a(int n_stokes, double mu, double mu_prime, dou
      else
           S1 = 2.* sqrt(1. - cos_sig1_2) * cos_sig1;
 
+     if (sin(D2R*d_phi) < 0.)
+          S1 = -S1;
+
      if (n_stokes >= 2)
           P1_a[1]  =  P2_a[1]*C1;
      if (n_stokes >= 3)
-- 
2.43.0


From c99c3736d6b05569ddcc9d4255c0ef642a6244c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:28 +0000
Subject: [PATCH 29/51] fix: scat_vector_rotate_hovenier_a() assigned the
 adjoint of its first element backwards

---
 src/xrtm_scatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index 960ef63..61f47fe 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -1097,7 +1097,7 @@ void scat_vector_rotate_hovenier_a(int n_stokes, double mu, double mu_prime, dou
      double C1;
      double S1;
 
-     P2_a[0] = P1_a[0];
+     P1_a[0] = P2_a[0];
      if (n_stokes == 1)
           return;
 
-- 
2.43.0


From cc795e76b16992afc136618b2fdbc7d604950d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:15 +0000
Subject: [PATCH 30/51] fix: rotations of the tree wrote the parent of the
 sentinel all trees share

---
 misc/gstruct_aatree.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misc/gstruct_aatree.h b/misc/gstruct_aatree.h
index 0fdb7c5..1c3e2e2 100644
--- a/misc/gstruct_aatree.h
+++ b/misc/gstruct_aatree.h
@@ -276,7 +276,8 @@ static aatpos *aatree_rotate_with_left(aatpos *K2) {
      K2->left  = K1->right;
      K1->right =  K2;
 
-     K2->left->parent = K2;
+     if (K2->left != &aatree_null_node)
+          K2->left->parent = K2;
      K1->parent = K1->right->parent;
      K1->right->parent = K1;
 
@@ -293,7 +294,8 @@ static aatpos *aatree_rotate_with_right(aatpos *K1) {
      K1->right = K2->left;
      K2->left  = K1;
 
-     K1->right->parent = K1;
+     if (K1->right != &aatree_null_node)
+          K1->right->parent = K1;
      K2->parent = K2->left->parent;
      K2->left->parent = K2;
 
-- 
2.43.0


From 4d929e9801fc7c660b2f81f501a18e1dcc36d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:04 +0000
Subject: [PATCH 31/51] fix: the getters of the Fortran 77 interfaces returned
 0 or -1 instead of the value

---
 interfaces/xrtm_fd_int_f77_util.c |  88 ++++-----
 interfaces/xrtm_int_f77_util.c    | 312 +++++++++++++++---------------
 2 files changed, 200 insertions(+), 200 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index 8fb34f6..3fdd534 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -35,11 +35,11 @@ int xrtm_fd_destroy_bindx_f77_(xrtm_fd_data *d)
 
 int xrtm_fd_get_n_derivs_bindx_f77_(xrtm_fd_data *d)
 {
-     if (xrtm_fd_get_n_derivs(d)) {
+     int r;
+     r = xrtm_fd_get_n_derivs(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_n_derivs()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -89,13 +89,13 @@ int xrtm_fd_set_f_iso_top_p_n_bindx_f77_(xrtm_fd_data *d, double *F_iso_top_l)
 
 double xrtm_fd_get_f_iso_top_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_F_iso_top_p(d, i_deriv)) {
+     r = xrtm_fd_get_F_iso_top_p(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_F_iso_top_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -125,13 +125,13 @@ int xrtm_fd_set_f_iso_bot_p_n_bindx_f77_(xrtm_fd_data *d, double *F_iso_bot_l)
 
 double xrtm_fd_get_f_iso_bot_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_F_iso_bot_p(d, i_deriv)) {
+     r = xrtm_fd_get_F_iso_bot_p(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_F_iso_bot_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -162,13 +162,13 @@ int xrtm_fd_set_levels_b_p_n_bindx_f77_(xrtm_fd_data *d, double *levels_b_l)
 
 double xrtm_fd_get_levels_b_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double *levels_b_l)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_levels_b_p(d, i_deriv, levels_b_l)) {
+     r = xrtm_fd_get_levels_b_p(d, i_deriv, levels_b_l);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_levels_b_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -198,13 +198,13 @@ int xrtm_fd_set_surface_b_p_n_bindx_f77_(xrtm_fd_data *d, double *surface_b_l)
 
 double xrtm_fd_get_surface_b_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_surface_b_p(d, i_deriv)) {
+     r = xrtm_fd_get_surface_b_p(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_surface_b_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -263,15 +263,15 @@ int xrtm_fd_set_g_p_nn_bindx_f77_(xrtm_fd_data *d, double *g_l)
 
 double xrtm_fd_get_g_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deriv_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_g_p(d, i_layer, i_deriv)) {
+     r = xrtm_fd_get_g_p(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_g_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -337,6 +337,7 @@ int xrtm_fd_set_coef_p_nn_bindx_f77_(xrtm_fd_data *d, double *coef_l)
 
 double xrtm_fd_get_coef_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deriv_, int *i_elem_, int *i_coef_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      int i_elem;
@@ -345,11 +346,10 @@ double xrtm_fd_get_coef_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      i_deriv = *i_deriv_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_fd_get_coef_p(d, i_layer, i_deriv, i_elem, i_coef)) {
+     r = xrtm_fd_get_coef_p(d, i_layer, i_deriv, i_elem, i_coef);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_coef_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -408,15 +408,15 @@ int xrtm_fd_set_omega_p_nn_bindx_f77_(xrtm_fd_data *d, double *omega_l)
 
 double xrtm_fd_get_omega_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deriv_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_omega_p(d, i_layer, i_deriv)) {
+     r = xrtm_fd_get_omega_p(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_omega_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -475,15 +475,15 @@ int xrtm_fd_set_ltau_p_nn_bindx_f77_(xrtm_fd_data *d, double *ltau_l)
 
 double xrtm_fd_get_ltau_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deriv_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_ltau_p(d, i_layer, i_deriv)) {
+     r = xrtm_fd_get_ltau_p(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_ltau_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -517,15 +517,15 @@ int xrtm_fd_set_kernel_ampfac_p_n_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, do
 
 double xrtm_fd_get_kernel_ampfac_p_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, int *i_deriv_)
 {
+     double r;
      int i_kernel;
      int i_deriv;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_kernel_ampfac_p(d, i_kernel, i_deriv)) {
+     r = xrtm_fd_get_kernel_ampfac_p(d, i_kernel, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_kernel_ampfac_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -592,17 +592,17 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, d
 
 double xrtm_fd_get_kernel_params_p_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, int *i_deriv_, int *i_param_)
 {
+     double r;
      int i_kernel;
      int i_deriv;
      int i_param;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
      i_param = *i_param_;
-     if (xrtm_fd_get_kernel_params_p(d, i_kernel, i_deriv, i_param)) {
+     r = xrtm_fd_get_kernel_params_p(d, i_kernel, i_deriv, i_param);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_fd_get_kernel_params_p()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index 5c06d9a..a69da89 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -57,133 +57,133 @@ int xrtm_destroy_bindx_f77_(xrtm_data *d)
 
 int xrtm_get_options_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_options(d)) {
+     int r;
+     r = xrtm_get_options(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_options()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_solvers_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_solvers(d)) {
+     int r;
+     r = xrtm_get_solvers(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_solvers()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_max_coef_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_max_coef(d)) {
+     int r;
+     r = xrtm_get_max_coef(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_max_coef()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_quad_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_quad(d)) {
+     int r;
+     r = xrtm_get_n_quad(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_quad()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_stokes_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_stokes(d)) {
+     int r;
+     r = xrtm_get_n_stokes(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_stokes()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_derivs_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_derivs(d)) {
+     int r;
+     r = xrtm_get_n_derivs(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_derivs()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_layers_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_layers(d)) {
+     int r;
+     r = xrtm_get_n_layers(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_layers()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_kernels_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_kernels(d)) {
+     int r;
+     r = xrtm_get_n_kernels(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_kernels()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_kernel_quad_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_kernel_quad(d)) {
+     int r;
+     r = xrtm_get_n_kernel_quad(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_kernel_quad()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 enum xrtm_kernel_type xrtm_get_kernel_bindx_f77_(xrtm_data *d, int *i_kernel_)
 {
+     enum xrtm_kernel_type r;
      int i_kernel;
      i_kernel = *i_kernel_;
-     if (xrtm_get_kernel(d, i_kernel)) {
+     r = xrtm_get_kernel(d, i_kernel);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_out_levels_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_levels(d)) {
+     int r;
+     r = xrtm_get_n_out_levels(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_out_levels()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_out_thetas_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_thetas(d)) {
+     int r;
+     r = xrtm_get_n_out_thetas(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_out_thetas()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_out_thetas_2_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_thetas_2(d)) {
+     int r;
+     r = xrtm_get_n_out_thetas_2(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_out_thetas_2()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -201,11 +201,11 @@ int xrtm_set_doub_d_tau_bindx_f77_(xrtm_data *d, double *d_tau_)
 
 double xrtm_get_doub_d_tau_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_doub_d_tau(d)) {
+     double r;
+     r = xrtm_get_doub_d_tau(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_doub_d_tau()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -273,11 +273,11 @@ int xrtm_set_fourier_tol_bindx_f77_(xrtm_data *d, double *fourier_tol_)
 
 double xrtm_get_fourier_tol_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_fourier_tol(d)) {
+     double r;
+     r = xrtm_get_fourier_tol(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_fourier_tol()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -295,11 +295,11 @@ int xrtm_set_lambda_bindx_f77_(xrtm_data *d, double *lambda_)
 
 double xrtm_get_lambda_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_lambda(d)) {
+     double r;
+     r = xrtm_get_lambda(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_lambda()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -317,11 +317,11 @@ int xrtm_set_planet_r_bindx_f77_(xrtm_data *d, double *planet_r_)
 
 double xrtm_get_planet_r_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_planet_r(d)) {
+     double r;
+     r = xrtm_get_planet_r(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_planet_r()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -419,11 +419,11 @@ int xrtm_set_f_iso_top_bindx_f77_(xrtm_data *d, double *F_iso_top_)
 
 double xrtm_get_f_iso_top_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_iso_top(d)) {
+     double r;
+     r = xrtm_get_F_iso_top(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_iso_top()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -453,13 +453,13 @@ int xrtm_set_f_iso_top_l_n_bindx_f77_(xrtm_data *d, double *F_iso_top_l)
 
 double xrtm_get_f_iso_top_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_F_iso_top_l(d, i_deriv)) {
+     r = xrtm_get_F_iso_top_l(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_iso_top_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -477,11 +477,11 @@ int xrtm_set_f_iso_bot_bindx_f77_(xrtm_data *d, double *F_iso_bot_)
 
 double xrtm_get_f_iso_bot_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_iso_bot(d)) {
+     double r;
+     r = xrtm_get_F_iso_bot(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_iso_bot()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -511,13 +511,13 @@ int xrtm_set_f_iso_bot_l_n_bindx_f77_(xrtm_data *d, double *F_iso_bot_l)
 
 double xrtm_get_f_iso_bot_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_F_iso_bot_l(d, i_deriv)) {
+     r = xrtm_get_F_iso_bot_l(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_iso_bot_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -535,11 +535,11 @@ int xrtm_set_f_0_bindx_f77_(xrtm_data *d, double *F_0_)
 
 double xrtm_get_f_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_0(d)) {
+     double r;
+     r = xrtm_get_F_0(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_0()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -557,11 +557,11 @@ int xrtm_set_theta_0_bindx_f77_(xrtm_data *d, double *theta_0_)
 
 double xrtm_get_theta_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_theta_0(d)) {
+     double r;
+     r = xrtm_get_theta_0(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_theta_0()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -579,11 +579,11 @@ int xrtm_set_phi_0_bindx_f77_(xrtm_data *d, double *phi_0_)
 
 double xrtm_get_phi_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_phi_0(d)) {
+     double r;
+     r = xrtm_get_phi_0(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_phi_0()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -658,11 +658,11 @@ int xrtm_set_surface_b_bindx_f77_(xrtm_data *d, double *surface_b_)
 
 double xrtm_get_surface_b_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_surface_b(d)) {
+     double r;
+     r = xrtm_get_surface_b(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_surface_b()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -692,13 +692,13 @@ int xrtm_set_surface_b_l_n_bindx_f77_(xrtm_data *d, double *surface_b_l)
 
 double xrtm_get_surface_b_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_surface_b_l(d, i_deriv)) {
+     r = xrtm_get_surface_b_l(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_surface_b_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -728,13 +728,13 @@ int xrtm_set_g_n_bindx_f77_(xrtm_data *d, double *g)
 
 double xrtm_get_g_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
+     double r;
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_g(d, i_layer)) {
+     r = xrtm_get_g(d, i_layer);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_g()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -793,15 +793,15 @@ int xrtm_set_g_l_nn_bindx_f77_(xrtm_data *d, double *g_l)
 
 double xrtm_get_g_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_g_l(d, i_layer, i_deriv)) {
+     r = xrtm_get_g_l(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_g_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -837,29 +837,29 @@ int xrtm_set_coef_n_bindx_f77_(xrtm_data *d, int *n_coef_layer, double *coef)
 
 int xrtm_get_n_coef_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
+     int r;
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_n_coef(d, i_layer)) {
+     r = xrtm_get_n_coef(d, i_layer);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_coef()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 double xrtm_get_coef_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_elem_, int *i_coef_)
 {
+     double r;
      int i_layer;
      int i_elem;
      int i_coef;
      i_layer = *i_layer_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_get_coef(d, i_layer, i_elem, i_coef)) {
+     r = xrtm_get_coef(d, i_layer, i_elem, i_coef);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_coef()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -925,6 +925,7 @@ int xrtm_set_coef_l_nn_bindx_f77_(xrtm_data *d, double *coef_l)
 
 double xrtm_get_coef_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, int *i_elem_, int *i_coef_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      int i_elem;
@@ -933,11 +934,10 @@ double xrtm_get_coef_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, in
      i_deriv = *i_deriv_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef)) {
+     r = xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_coef_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -967,13 +967,13 @@ int xrtm_set_omega_n_bindx_f77_(xrtm_data *d, double *omega)
 
 double xrtm_get_omega_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
+     double r;
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_omega(d, i_layer)) {
+     r = xrtm_get_omega(d, i_layer);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_omega()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1032,15 +1032,15 @@ int xrtm_set_omega_l_nn_bindx_f77_(xrtm_data *d, double *omega_l)
 
 double xrtm_get_omega_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_omega_l(d, i_layer, i_deriv)) {
+     r = xrtm_get_omega_l(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_omega_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1070,13 +1070,13 @@ int xrtm_set_ltau_n_bindx_f77_(xrtm_data *d, double *ltau)
 
 double xrtm_get_ltau_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
+     double r;
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_ltau(d, i_layer)) {
+     r = xrtm_get_ltau(d, i_layer);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_ltau()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1135,15 +1135,15 @@ int xrtm_set_ltau_l_nn_bindx_f77_(xrtm_data *d, double *ltau_l)
 
 double xrtm_get_ltau_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_ltau_l(d, i_layer, i_deriv)) {
+     r = xrtm_get_ltau_l(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_ltau_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1163,13 +1163,13 @@ int xrtm_set_kernel_ampfac_bindx_f77_(xrtm_data *d, int *i_kernel_, double *ampf
 
 double xrtm_get_kernel_ampfac_bindx_f77_(xrtm_data *d, int *i_kernel_)
 {
+     double r;
      int i_kernel;
      i_kernel = *i_kernel_;
-     if (xrtm_get_kernel_ampfac(d, i_kernel)) {
+     r = xrtm_get_kernel_ampfac(d, i_kernel);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1203,15 +1203,15 @@ int xrtm_set_kernel_params_n_bindx_f77_(xrtm_data *d, int *i_kernel_, double *pa
 
 double xrtm_get_kernel_params_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_param_)
 {
+     double r;
      int i_kernel;
      int i_param;
      i_kernel = *i_kernel_;
      i_param = *i_param_;
-     if (xrtm_get_kernel_params(d, i_kernel, i_param)) {
+     r = xrtm_get_kernel_params(d, i_kernel, i_param);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel_params()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1245,15 +1245,15 @@ int xrtm_set_kernel_ampfac_l_n_bindx_f77_(xrtm_data *d, int *i_kernel_, double *
 
 double xrtm_get_kernel_ampfac_l_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_deriv_)
 {
+     double r;
      int i_kernel;
      int i_deriv;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv)) {
+     r = xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1320,17 +1320,17 @@ int xrtm_set_kernel_params_l_nn_bindx_f77_(xrtm_data *d, int *i_kernel_, double
 
 double xrtm_get_kernel_params_l_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_deriv_, int *i_param_)
 {
+     double r;
      int i_kernel;
      int i_deriv;
      int i_param;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
      i_param = *i_param_;
-     if (xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param)) {
+     r = xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel_params_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
-- 
2.43.0


From 04d4204b4dbcc63d45c29b931ad2c7c8ba3f3122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:35 +0000
Subject: [PATCH 32/51] fix: the finite difference interface returned -1
 instead of the documented error values

---
 src/xrtm_fd_interface.c | 146 ++++++++++++++++++++--------------------
 1 file changed, 73 insertions(+), 73 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 3534f0f..5477ffc 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -57,7 +57,7 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
       *-----------------------------------------------------------------------*/
      if (fd->d->options & XRTM_OPTION_CALC_DERIVS) {
           fprintf(stderr, "ERROR: can't use xrtm option \"calc_derivs\" with xrtm_fd\n");
-          return -1;
+          return XRTM_INT_ERROR;
 
      }
 
@@ -102,7 +102,7 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
       *-----------------------------------------------------------------------*/
      }
      else if (r < 0)
-          return -1;
+          return XRTM_INT_ERROR;
 
 
      /*-------------------------------------------------------------------------
@@ -231,7 +231,7 @@ int xrtm_fd_get_delta(xrtm_fd_data *d, double *delta) {
  ******************************************************************************/
 int xrtm_fd_set_F_iso_top_p_1(xrtm_fd_data *d, int i_deriv, double F_iso_top_p) {
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      d->F_iso_top_p[i_deriv] = F_iso_top_p;
 /*
@@ -258,7 +258,7 @@ int xrtm_fd_set_F_iso_top_p_n(xrtm_fd_data *d, double *F_iso_top_p) {
 
 double xrtm_fd_get_F_iso_top_p(xrtm_fd_data *d, int i_deriv) {
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      return d->F_iso_top_p[i_deriv];
 }
@@ -270,7 +270,7 @@ double xrtm_fd_get_F_iso_top_p(xrtm_fd_data *d, int i_deriv) {
  ******************************************************************************/
 int xrtm_fd_set_F_iso_bot_p_1(xrtm_fd_data *d, int i_deriv, double F_iso_bot_p) {
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      d->F_iso_bot_p[i_deriv] = F_iso_bot_p;
 /*
@@ -297,7 +297,7 @@ int xrtm_fd_set_F_iso_bot_p_n(xrtm_fd_data *d, double *F_iso_bot_p) {
 
 double xrtm_fd_get_F_iso_bot_p(xrtm_fd_data *d, int i_deriv) {
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      return d->F_iso_bot_p[i_deriv];
 }
@@ -359,10 +359,10 @@ double xrtm_fd_get_levels_b_p(xrtm_fd_data *d, int i_deriv, double *levels_b_p)
 
      if (! (d->d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      for (i = 0; i < d->d->n_layers + 1; ++i)
           levels_b_p[i] = d->levels_b_p[i][i_deriv];
@@ -382,7 +382,7 @@ int xrtm_fd_set_surface_b_p_1(xrtm_fd_data *d, int i_deriv, double surface_b_p)
           return XRTM_INT_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      d->surface_b_p[i_deriv] = surface_b_p;
 /*
@@ -419,7 +419,7 @@ double xrtm_fd_get_surface_b_p(xrtm_fd_data *d, int i_deriv) {
           return XRTM_DBL_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      return d->surface_b_p[i_deriv];
 
@@ -438,11 +438,11 @@ static int xrtm_fd_set_g_x_p(xrtm_fd_data *d, void *g_p, int i_layer,
 */
      if (! (d->d->solvers & XRTM_SOLVERS_USE_G)) {
           fprintf(stderr, "ERROR: no two-stream solvers have been specified\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", -1);
-     CHECK_INDEX_RANGE(i_deriv,    d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv,    d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      if (xrtm_set_layer_x_l(d->d, d->g_p, g_p,
                             i_layer, n_layers, i_deriv, n_derivs, type)) {
@@ -463,7 +463,7 @@ int xrtm_fd_set_g_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double g_p) {
 
      if (xrtm_fd_set_g_x_p(d, &g_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -475,7 +475,7 @@ int xrtm_fd_set_g_p_n1(xrtm_fd_data *d, int i_deriv, double *g_p) {
 
      if (xrtm_fd_set_g_x_p(d, g_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -487,7 +487,7 @@ int xrtm_fd_set_g_p_1n(xrtm_fd_data *d, int i_layer, double *g_p) {
 
      if (xrtm_fd_set_g_x_p(d, g_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -499,7 +499,7 @@ int xrtm_fd_set_g_p_nn(xrtm_fd_data *d, double **g_p) {
 
      if (xrtm_fd_set_g_x_p(d, g_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -541,11 +541,11 @@ static int xrtm_fd_set_coef_x_p(xrtm_fd_data *d, void *coef_p, int i_layer, int
 
      if (! (d->d->solvers & XRTM_SOLVERS_USE_COEF)) {
           fprintf(stderr, "ERROR: no multi-stream solvers have been specified\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", -1);
-     CHECK_INDEX_RANGE(i_deriv,    d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv,    d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
           for (j = i_deriv, jj = 0; j < n_derivs; ++j, ++jj) {
@@ -596,7 +596,7 @@ int xrtm_fd_set_coef_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double **co
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -608,7 +608,7 @@ int xrtm_fd_set_coef_p_n1(xrtm_fd_data *d, int i_deriv, double ***coef_p) {
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -620,7 +620,7 @@ int xrtm_fd_set_coef_p_1n(xrtm_fd_data *d, int i_layer, double ***coef_p) {
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -632,7 +632,7 @@ int xrtm_fd_set_coef_p_nn(xrtm_fd_data *d, double ****coef_p) {
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -665,8 +665,8 @@ static int xrtm_fd_set_omega_x_p(xrtm_fd_data *d, void *omega_p, int i_layer,
 /*
      int deps;
 */
-     CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", -1);
-     CHECK_INDEX_RANGE(i_deriv,    d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv,    d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      if (xrtm_set_layer_x_l(d->d, d->omega_p, omega_p,
                             i_layer, n_layers, i_deriv, n_derivs, type)) {
@@ -690,7 +690,7 @@ int xrtm_fd_set_omega_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double ome
 
      if (xrtm_fd_set_omega_x_p(d, &omega_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -702,7 +702,7 @@ int xrtm_fd_set_omega_p_n1(xrtm_fd_data *d, int i_deriv, double *omega_p) {
 
      if (xrtm_fd_set_omega_x_p(d, omega_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -714,7 +714,7 @@ int xrtm_fd_set_omega_p_1n(xrtm_fd_data *d, int i_layer, double *omega_p) {
 
      if (xrtm_fd_set_omega_x_p(d, omega_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -726,7 +726,7 @@ int xrtm_fd_set_omega_p_nn(xrtm_fd_data *d, double **omega_p) {
 
      if (xrtm_fd_set_omega_x_p(d, omega_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -750,8 +750,8 @@ double xrtm_fd_get_omega_p(xrtm_fd_data *d, int i_layer, int i_deriv) {
 static int xrtm_fd_set_ltau_x_p(xrtm_fd_data *d, void *ltau_p, int i_layer,
                                 int n_layers, int i_deriv, int n_derivs, int type) {
 
-     CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", -1);
-     CHECK_INDEX_RANGE(i_deriv,    d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv,    d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      if (xrtm_set_layer_x_l(d->d, d->ltau_p, ltau_p,
                             i_layer, n_layers, i_deriv, n_derivs, type)) {
@@ -770,7 +770,7 @@ int xrtm_fd_set_ltau_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double ltau
 
      if (xrtm_fd_set_ltau_x_p(d, &ltau_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -782,7 +782,7 @@ int xrtm_fd_set_ltau_p_n1(xrtm_fd_data *d, int i_deriv, double *ltau_p) {
 
      if (xrtm_fd_set_ltau_x_p(d, ltau_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -794,7 +794,7 @@ int xrtm_fd_set_ltau_p_1n(xrtm_fd_data *d, int i_layer, double *ltau_p) {
 
      if (xrtm_fd_set_ltau_x_p(d, ltau_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -806,7 +806,7 @@ int xrtm_fd_set_ltau_p_nn(xrtm_fd_data *d, double **ltau_p) {
 
      if (xrtm_fd_set_ltau_x_p(d, ltau_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -829,10 +829,10 @@ double xrtm_fd_get_ltau_p(xrtm_fd_data *d, int i_layer, int i_deriv) {
  ******************************************************************************/
 int xrtm_fd_set_kernel_ampfac_p_1(xrtm_fd_data *d, int i_kernel, int i_deriv, double ampfac_p) {
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
-     CHECK_INDEX_RANGE(i_deriv,     d->n_derivs,  "i_deriv",  "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv,     d->n_derivs,  "i_deriv",  "n_derivs", XRTM_INT_ERROR);
 
      d->kernel_ampfac_p[i_kernel][i_deriv] = ampfac_p;
 /*
@@ -847,9 +847,9 @@ int xrtm_fd_set_kernel_ampfac_p_n(xrtm_fd_data *d, int i_kernel, double *ampfac_
 
      int i;
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
 
      for (i = 0; i < d->n_derivs; ++i)
           d->kernel_ampfac_p[i_kernel][i] = ampfac_p[i];
@@ -877,14 +877,14 @@ int xrtm_fd_set_kernel_params_p_11(xrtm_fd_data *d, int i_kernel, int i_deriv, i
 
      int n_params;
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]);
 
-     CHECK_INDEX_RANGE(i_deriv,  d->n_derivs,  "i_deriv",  "n_derivs", -1);
-     CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params", -1);
+     CHECK_INDEX_RANGE(i_deriv,  d->n_derivs,  "i_deriv",  "n_derivs", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params", XRTM_INT_ERROR);
 
      d->kernel_params_p[i_kernel][i_deriv][i_param] = param_p;
 /*
@@ -901,10 +901,10 @@ int xrtm_fd_set_kernel_params_p_1n(xrtm_fd_data *d, int i_kernel, int i_deriv, d
 
      int n_params;
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
-     CHECK_INDEX_RANGE(i_deriv,     d->n_derivs,  "i_deriv",  "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv,     d->n_derivs,  "i_deriv",  "n_derivs", XRTM_INT_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]);
 
@@ -923,13 +923,13 @@ int xrtm_fd_set_kernel_params_p_n1(xrtm_fd_data *d, int i_kernel, int i_param, d
 
      int n_params;
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]);
 
-     CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params", -1);
+     CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params", XRTM_INT_ERROR);
 
      for (i = 0; i < d->n_derivs; ++i)
           d->kernel_params_p[i_kernel][i][i_param] = params_p[i];
@@ -948,9 +948,9 @@ int xrtm_fd_set_kernel_params_p_nn(xrtm_fd_data *d, int i_kernel, double **param
 
      int n_params;
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]);
 
@@ -1003,19 +1003,19 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
      if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
            if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
                 fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
-                return -1;
+                return XRTM_INT_ERROR;
            }
 
            if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
                 fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
-                return -1;
+                return XRTM_INT_ERROR;
            }
 
            levels_b = alloc_array1_d(d->d->n_layers + 1);
 
            if (xrtm_get_levels_b(d->d, levels_b)) {
                 fprintf(stderr, "ERROR: xrtm_get_levels_b()\n");
-                return -1;
+                return XRTM_INT_ERROR;
            }
 
            for (i = 0; i < d->d->n_layers + 1; ++i) {
@@ -1024,7 +1024,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
            if (xrtm_set_levels_b(d->d, levels_b)) {
                 fprintf(stderr, "ERROR: xrtm_set_levels_b()\n");
-                return -1;
+                return XRTM_INT_ERROR;
            }
 
            free_array1_d(levels_b);
@@ -1032,7 +1032,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
            if (xrtm_set_surface_b(d->d, xrtm_get_surface_b(d->d) + f * d->surface_b_p[j])) {
                 fprintf(stderr, "ERROR: xrtm_set_surface_b()\n");
-                return -1;
+                return XRTM_INT_ERROR;
            }
      }
 
@@ -1040,7 +1040,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
            for (i = 0; i < d->d->n_layers; ++i) {
                 if (xrtm_set_g_1(d->d, i, xrtm_get_g(d->d, i) + f * d->g_p[i][j])) {
                      fprintf(stderr, "ERROR: xrtm_set_g_1()\n");
-                     return -1;
+                     return XRTM_INT_ERROR;
                 }
            }
       }
@@ -1056,7 +1056,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
                 if (xrtm_set_coef_1(d->d, i, n_coef_layer, coef)) {
                      fprintf(stderr, "ERROR: xrtm_set_coef_1()\n");
-                     return -1;
+                     return XRTM_INT_ERROR;
                 }
            }
       }
@@ -1064,21 +1064,21 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
       for (i = 0; i < d->d->n_layers; ++i) {
            if (xrtm_set_omega_1(d->d, i, xrtm_get_omega(d->d, i) + f * d->omega_p[i][j])) {
                 fprintf(stderr, "ERROR: xrtm_set_omega_1()\n");
-                return -1;
+                return XRTM_INT_ERROR;
            }
       }
 
       for (i = 0; i < d->d->n_layers; ++i) {
            if (xrtm_set_ltau_1(d->d,  i, xrtm_get_ltau(d->d, i)  + f * d->ltau_p [i][j])) {
                 fprintf(stderr, "ERROR: xrtm_set_ltau_1()\n");
-                return -1;
+                return XRTM_INT_ERROR;
            }
      }
 
      for (i = 0; i < d->d->n_kernels; ++i) {
           if (xrtm_set_kernel_ampfac(d->d, i, xrtm_get_kernel_ampfac(d->d, i) + f * d->kernel_ampfac_p[i][j])) {
                 fprintf(stderr, "ERROR: xrtm_set_ampfac()\n");
-                return -1;
+                return XRTM_INT_ERROR;
           }
 
           n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i]);
@@ -1086,7 +1086,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
           for (k = 0; k < n_params; ++k) {
                 if (xrtm_set_kernel_params_1(d->d, i, k, xrtm_get_kernel_params(d->d, i, k) + f * d->kernel_params_p[i][j][k])) {
                       fprintf(stderr, "ERROR: xrtm_set_kernel_param_1()\n");
-                      return -1;
+                      return XRTM_INT_ERROR;
                 }
           }
      }
@@ -1140,7 +1140,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
       *-----------------------------------------------------------------------*/
      if (xrtm_radiance(d->d, solver, n_out_phis, out_phis, I_p, I_m, NULL, NULL)) {
           fprintf(stderr, "ERROR: xrtm_radiance()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
 
@@ -1171,12 +1171,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
                if (perturb_values(d, j, solver, f, coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                for (i = 0; i < d->d->n_ulevels; ++i) {
@@ -1198,12 +1198,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
           else {
                if (perturb_values(d, j, solver,  1., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                for (i = 0; i < d->d->n_ulevels; ++i) {
@@ -1219,12 +1219,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
                if (perturb_values(d, j, solver, -2., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                for (i = 0; i < d->d->n_ulevels; ++i) {
@@ -1240,7 +1240,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
                if (perturb_values(d, j, solver,  1., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
           }
      }
@@ -1268,7 +1268,7 @@ int xrtm_fd_radiance(xrtm_fd_data *d, enum xrtm_solver_mask solver, enum xrtm_fd
 
      if (xrtm_fd_solution(d, solver, XRTM_OUTPUT_RADIANCE, fd_method, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
-- 
2.43.0


From 6091cd6bd699ab547bcb9cf92839ce118bb640af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:55 +0000
Subject: [PATCH 33/51] fix: xrtm_fd_set_levels_b_p_1() used an uninitialised
 index

---
 src/xrtm_fd_interface.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 5477ffc..43f2aa2 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -310,7 +310,6 @@ double xrtm_fd_get_F_iso_bot_p(xrtm_fd_data *d, int i_deriv) {
 int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 
      int i;
-     int j;
 
      if (! (d->d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
@@ -319,8 +318,10 @@ int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 /*
      CHECK_INIT_FOR_DERIVS();
 */
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
+
      for (i = 0; i < d->d->n_layers + 1; ++i)
-          d->levels_b_p[i][j] = levels_b_p[i_deriv];
+          d->levels_b_p[i][i_deriv] = levels_b_p[i];
 /*
      set_deps(d, DEP_MASK_LEVELS_B_L, 0, d->n_layers);
 */
-- 
2.43.0


From 6d5fe62de7f51a4d01ac27b1b2396dcb8b483667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:55 +0000
Subject: [PATCH 34/51] fix: xrtm_fd_get_coef_p() checked the wrong index
 ranges

---
 src/xrtm_fd_interface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 43f2aa2..3d9f14b 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -650,8 +650,8 @@ double xrtm_fd_get_coef_p(xrtm_fd_data *d, int i_layer, int i_deriv, int i_elem,
 
      CHECK_INDEX_RANGE(i_layer, d->d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs,                 "i_deriv", "n_derivs",              XRTM_DBL_ERROR);
-     CHECK_INDEX_RANGE(i_elem,  6,                           "i_elem",  "6",                     XRTM_DBL_ERROR);
-     CHECK_INDEX_RANGE(i_layer, d->d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_elem,  d->d->n_elem,                "i_elem",  "n_elem",                XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_coef,  d->d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
 
      return d->coef_p[i_layer][i_deriv][i_elem][i_coef];
 }
-- 
2.43.0


From 4c15b03db9bedd2240368c798d03fd414e781717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:55 +0000
Subject: [PATCH 35/51] fix: one-sided finite differences never restored the
 inputs and backward differences had the wrong sign

---
 src/xrtm_fd_interface.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 3d9f14b..dfa0414 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1184,12 +1184,17 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] = (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
-                                   I_m_l[i][j][k][l][m] = (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
+                                   I_p_l[i][j][k][l][m] = (I_p2[i][k][l][m] - I_p[i][k][l][m]) / (f * d->delta[j]);
+                                   I_m_l[i][j][k][l][m] = (I_m2[i][k][l][m] - I_m[i][k][l][m]) / (f * d->delta[j]);
                               }
                          }
                     }
                }
+
+               if (perturb_values(d, j, solver, -f, coef)) {
+                    fprintf(stderr, "ERROR: perturb_values()\n");
+                    return XRTM_INT_ERROR;
+               }
           }
 
 
-- 
2.43.0


From 89d7fce930de1c086927000cc9b725b605077efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:07 +0000
Subject: [PATCH 36/51] fix: the Fortran interfaces of the finite differences
 sized arrays with the number of analytic derivatives

---
 interfaces/xrtm_fd_int_f77_util.c | 32 +++++++++++++++----------------
 interfaces/xrtm_fd_int_f90_util.c | 32 +++++++++++++++----------------
 interfaces/xrtm_fd_interface.def  | 18 ++++++++---------
 3 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index 3fdd534..5cbe06d 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -150,7 +150,7 @@ int xrtm_fd_set_levels_b_p_1_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double *
 int xrtm_fd_set_levels_b_p_n_bindx_f77_(xrtm_fd_data *d, double *levels_b_l)
 {
      double **levels_b_l2;
-     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->d->n_derivs);
+     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->n_derivs);
      if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
           return -1;
@@ -251,7 +251,7 @@ int xrtm_fd_set_g_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *g_l)
 int xrtm_fd_set_g_p_nn_bindx_f77_(xrtm_fd_data *d, double *g_l)
 {
      double **g_l2;
-     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->d->n_derivs);
+     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_g_p_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
           return -1;
@@ -312,7 +312,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
      int i_layer;
      double ***coef_l2;
      i_layer = *i_layer_;
-     coef_l2 = array_from_mem3_d(coef_l, d->d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
@@ -325,7 +325,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
 int xrtm_fd_set_coef_p_nn_bindx_f77_(xrtm_fd_data *d, double *coef_l)
 {
      double ****coef_l2;
-     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->d->n_derivs, d->d->n_elem, d->d->n_coef);
+     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->n_derivs, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
           return -1;
@@ -396,7 +396,7 @@ int xrtm_fd_set_omega_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *om
 int xrtm_fd_set_omega_p_nn_bindx_f77_(xrtm_fd_data *d, double *omega_l)
 {
      double **omega_l2;
-     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->d->n_derivs);
+     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
           return -1;
@@ -463,7 +463,7 @@ int xrtm_fd_set_ltau_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *lta
 int xrtm_fd_set_ltau_p_nn_bindx_f77_(xrtm_fd_data *d, double *ltau_l)
 {
      double **ltau_l2;
-     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->d->n_derivs);
+     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
           return -1;
@@ -580,7 +580,7 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, d
      int i_kernel;
      double **params_l2;
      i_kernel = *i_kernel_;
-     params_l2 = array_from_mem2_d(params_l, d->d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
@@ -629,13 +629,13 @@ int xrtm_fd_solution_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->d->n_derivs);
-     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->d->n_derivs);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->n_derivs);
+     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->n_derivs);
+     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->n_derivs);
+     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->n_derivs);
+     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->n_derivs);
      if (xrtm_fd_solution(d, (enum xrtm_solver_mask) solver, solutions, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
           return -1;
@@ -670,8 +670,8 @@ int xrtm_fd_radiance_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      if (xrtm_fd_radiance(d, (enum xrtm_solver_mask) solver, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
           return -1;
diff --git a/interfaces/xrtm_fd_int_f90_util.c b/interfaces/xrtm_fd_int_f90_util.c
index e81480a..57e83cc 100644
--- a/interfaces/xrtm_fd_int_f90_util.c
+++ b/interfaces/xrtm_fd_int_f90_util.c
@@ -14,7 +14,7 @@ extern "C" {
 int xrtm_fd_set_levels_b_p_n_bindx_f90(xrtm_fd_data *d, double *levels_b_l)
 {
      double **levels_b_l2;
-     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->d->n_derivs);
+     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->n_derivs);
      if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
           return -1;
@@ -27,7 +27,7 @@ int xrtm_fd_set_levels_b_p_n_bindx_f90(xrtm_fd_data *d, double *levels_b_l)
 int xrtm_fd_set_g_p_nn_bindx_f90(xrtm_fd_data *d, double *g_l)
 {
      double **g_l2;
-     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->d->n_derivs);
+     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_g_p_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
           return -1;
@@ -66,7 +66,7 @@ int xrtm_fd_set_coef_p_n1_bindx_f90(xrtm_fd_data *d, int i_deriv, double *coef_l
 int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l)
 {
      double ***coef_l2;
-     coef_l2 = array_from_mem3_d(coef_l, d->d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
@@ -79,7 +79,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l
 int xrtm_fd_set_coef_p_nn_bindx_f90(xrtm_fd_data *d, double *coef_l)
 {
      double ****coef_l2;
-     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->d->n_derivs, d->d->n_elem, d->d->n_coef);
+     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->n_derivs, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
           return -1;
@@ -92,7 +92,7 @@ int xrtm_fd_set_coef_p_nn_bindx_f90(xrtm_fd_data *d, double *coef_l)
 int xrtm_fd_set_omega_p_nn_bindx_f90(xrtm_fd_data *d, double *omega_l)
 {
      double **omega_l2;
-     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->d->n_derivs);
+     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
           return -1;
@@ -105,7 +105,7 @@ int xrtm_fd_set_omega_p_nn_bindx_f90(xrtm_fd_data *d, double *omega_l)
 int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
 {
      double **ltau_l2;
-     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->d->n_derivs);
+     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
           return -1;
@@ -118,7 +118,7 @@ int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
 int xrtm_fd_set_kernel_params_p_nn_bindx_f90(xrtm_fd_data *d, int i_kernel, double *params_l)
 {
      double **params_l2;
-     params_l2 = array_from_mem2_d(params_l, d->d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
@@ -143,13 +143,13 @@ int xrtm_fd_solution_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, in
      out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->d->n_derivs);
-     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->d->n_derivs);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->n_derivs);
+     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->n_derivs);
+     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->n_derivs);
+     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->n_derivs);
+     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->n_derivs);
      if (xrtm_fd_solution(d, solver, solutions, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
           return -1;
@@ -178,8 +178,8 @@ int xrtm_fd_radiance_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, en
      out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      if (xrtm_fd_radiance(d, solver, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
           return -1;
diff --git a/interfaces/xrtm_fd_interface.def b/interfaces/xrtm_fd_interface.def
index cd96c81..fc310e2 100644
--- a/interfaces/xrtm_fd_interface.def
+++ b/interfaces/xrtm_fd_interface.def
@@ -20,7 +20,7 @@ subprogram_general int 0 set_F_iso_bot_p_1		0, int 0 i_deriv in, double 0 F_iso_
 subprogram_general int 0 set_F_iso_bot_p_n		0, double 1 "d->n_derivs" F_iso_bot_l in;
 subprogram_general double 0 get_F_iso_bot_p		1, int 0 i_deriv in;
 subprogram_general int 0 set_levels_b_p_1		0, int 0 i_deriv in, double 1 "d->d->n_layers + 1" levels_b_l in;
-subprogram_general int 0 set_levels_b_p_n		0, double 2 "d->d->n_layers + 1" "d->d->n_derivs" levels_b_l in;
+subprogram_general int 0 set_levels_b_p_n		0, double 2 "d->d->n_layers + 1" "d->n_derivs" levels_b_l in;
 subprogram_general double 0 get_levels_b_p		1, int 0 i_deriv in, double 1 "d->d->n_layers + 1" levels_b_l out;
 subprogram_general int 0 set_surface_b_p_1		0, int 0 i_deriv in, double 0 surface_b_l in;
 subprogram_general int 0 set_surface_b_p_n		0, double 1 "d->n_derivs" surface_b_l in;
@@ -28,22 +28,22 @@ subprogram_general double 0 get_surface_b_p		1, int 0 i_deriv in;
 subprogram_general int 0 set_g_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 g_l in;
 subprogram_general int 0 set_g_p_n1			0, int 0 i_deriv in, double 1 "d->n_layers" g_l in;
 subprogram_general int 0 set_g_p_1n			0, int 0 i_layer in, double 1 "d->n_derivs" g_l in;
-subprogram_general int 0 set_g_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" g_l in;
+subprogram_general int 0 set_g_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" g_l in;
 subprogram_general double 0 get_g_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_coef_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 2 "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
 subprogram_general int 0 set_coef_p_n1			0, int 0 i_deriv in, double 3 "d->d->n_layers" "d->d->n_elem" "d->d->n_coef" coef_l in;
-subprogram_general int 0 set_coef_p_1n			0, int 0 i_layer in, double 3 "d->d->n_derivs" "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
-subprogram_general int 0 set_coef_p_nn			0, double 4 "d->d->n_layers" "d->d->n_derivs" "d->d->n_elem" "d->d->n_coef" coef_l in;
+subprogram_general int 0 set_coef_p_1n			0, int 0 i_layer in, double 3 "d->n_derivs" "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
+subprogram_general int 0 set_coef_p_nn			0, double 4 "d->d->n_layers" "d->n_derivs" "d->d->n_elem" "d->d->n_coef" coef_l in;
 subprogram_general double 0 get_coef_p			1, int 0 i_layer in, int 0 i_deriv in, int 0 i_elem in, int 0 i_coef in;
 subprogram_general int 0 set_omega_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 omega_l in;
 subprogram_general int 0 set_omega_p_n1			0, int 0 i_deriv in, double 1 "d->n_derivs" omega_l in;
 subprogram_general int 0 set_omega_p_1n			0, int 0 i_layer in, double 1 "d->n_layers" omega_l in;
-subprogram_general int 0 set_omega_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" omega_l in;
+subprogram_general int 0 set_omega_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" omega_l in;
 subprogram_general double 0 get_omega_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_ltau_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 ltau_l in;
 subprogram_general int 0 set_ltau_p_n1			0, int 0 i_deriv in, double 1 "d->n_derivs" ltau_l in;
 subprogram_general int 0 set_ltau_p_1n			0, int 0 i_layer in, double 1 "d->n_layers" ltau_l in;
-subprogram_general int 0 set_ltau_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" ltau_l in;
+subprogram_general int 0 set_ltau_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" ltau_l in;
 subprogram_general double 0 get_ltau_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_kernel_ampfac_p_1		0, int 0 i_kernel in, int 0 i_deriv in, double 0 ampfac_l in;
 subprogram_general int 0 set_kernel_ampfac_p_n		0, int 0 i_kernel in, double 1 "d->n_derivs" ampfac_l in;
@@ -51,8 +51,8 @@ subprogram_general double 0 get_kernel_ampfac_p		1, int 0 i_kernel in, int 0 i_d
 subprogram_general int 0 set_kernel_params_p_11		0, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in, double 0 param_l in;
 subprogram_general int 0 set_kernel_params_p_1n		0, int 0 i_kernel in, int 0 i_deriv in, double 1 "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
 subprogram_general int 0 set_kernel_params_p_n1		0, int 0 i_kernel in, int 0 i_param in, double 1 "d->n_derivs" params_l in;
-subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->d->n_derivs"  "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
+subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->n_derivs"  "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
 subprogram_general double 0 get_kernel_params_p		1, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in;
 
-subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_div_l out;
-subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out;
+subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_div_l out;
+subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out;
-- 
2.43.0


From 55c62e4d6037d1c9a84b5ce5f0537176585d6fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:27 +0000
Subject: [PATCH 37/51] fix: wrappers built out_phis with no rows when the
 quadrature angles are the output angles

---
 interfaces/xrtm_fd_int_f77_util.c | 4 ++--
 interfaces/xrtm_fd_int_f90_util.c | 4 ++--
 interfaces/xrtm_fd_interface.def  | 4 ++--
 interfaces/xrtm_int_f77_util.c    | 4 ++--
 interfaces/xrtm_int_f90_util.c    | 4 ++--
 interfaces/xrtm_int_idl.c         | 8 ++++----
 interfaces/xrtm_int_jl_util.c     | 4 ++--
 interfaces/xrtm_int_py.c          | 4 ++--
 interfaces/xrtm_interface.def     | 4 ++--
 9 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index 5cbe06d..455734c 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -626,7 +626,7 @@ int xrtm_fd_solution_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      solutions = *solutions_;
      method = *method_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
@@ -667,7 +667,7 @@ int xrtm_fd_radiance_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      solver = *solver_;
      method = *method_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
diff --git a/interfaces/xrtm_fd_int_f90_util.c b/interfaces/xrtm_fd_int_f90_util.c
index 57e83cc..ca9bbd1 100644
--- a/interfaces/xrtm_fd_int_f90_util.c
+++ b/interfaces/xrtm_fd_int_f90_util.c
@@ -140,7 +140,7 @@ int xrtm_fd_solution_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, in
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
@@ -175,7 +175,7 @@ int xrtm_fd_radiance_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, en
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
diff --git a/interfaces/xrtm_fd_interface.def b/interfaces/xrtm_fd_interface.def
index fc310e2..be143d8 100644
--- a/interfaces/xrtm_fd_interface.def
+++ b/interfaces/xrtm_fd_interface.def
@@ -54,5 +54,5 @@ subprogram_general int 0 set_kernel_params_p_n1		0, int 0 i_kernel in, int 0 i_p
 subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->n_derivs"  "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
 subprogram_general double 0 get_kernel_params_p		1, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in;
 
-subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_div_l out;
-subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out;
+subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_div_l out;
+subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out;
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index a69da89..54f5417 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -1402,7 +1402,7 @@ int xrtm_solution_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      solver = *solver_;
      solutions = *solutions_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
@@ -1441,7 +1441,7 @@ int xrtm_radiance_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      double *****K_m2;
      solver = *solver_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
diff --git a/interfaces/xrtm_int_f90_util.c b/interfaces/xrtm_int_f90_util.c
index 2739885..263a6f4 100644
--- a/interfaces/xrtm_int_f90_util.c
+++ b/interfaces/xrtm_int_f90_util.c
@@ -166,7 +166,7 @@ int xrtm_solution_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int solu
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
@@ -201,7 +201,7 @@ int xrtm_radiance_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int n_ou
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
diff --git a/interfaces/xrtm_int_idl.c b/interfaces/xrtm_int_idl.c
index 2d8529e..390fb61 100644
--- a/interfaces/xrtm_int_idl.c
+++ b/interfaces/xrtm_int_idl.c
@@ -3836,8 +3836,8 @@ void IDL_CDECL xrtm_solution_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be of type double");
      if (argv[4]->value.arr->n_dim != 2)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be an array with 2 dimensions");
-     if (argv[4]->value.arr->dim[1] != (d->n_out_thetas))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas elements");
+     if (argv[4]->value.arr->dim[1] != (d->n_out_thetas_2))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas_2 elements");
      if (argv[4]->value.arr->dim[0] != (n_out_phis))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 1 must have n_out_phis elements");
      dim[0] = d->n_out_thetas;
@@ -4012,8 +4012,8 @@ void IDL_CDECL xrtm_radiance_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be of type double");
      if (argv[3]->value.arr->n_dim != 2)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be an array with 2 dimensions");
-     if (argv[3]->value.arr->dim[1] != (d->n_out_thetas))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas elements");
+     if (argv[3]->value.arr->dim[1] != (d->n_out_thetas_2))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas_2 elements");
      if (argv[3]->value.arr->dim[0] != (n_out_phis))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 1 must have n_out_phis elements");
      dim[0] = d->n_out_thetas;
diff --git a/interfaces/xrtm_int_jl_util.c b/interfaces/xrtm_int_jl_util.c
index 3d09b5f..247f25e 100644
--- a/interfaces/xrtm_int_jl_util.c
+++ b/interfaces/xrtm_int_jl_util.c
@@ -337,7 +337,7 @@ int kernel_qw_kernel_qw_dims(xrtm_data *d, size_t *dims)
 
 int solution_out_phis_dims(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, size_t *dims)
 {
-    dims[0] = d->n_out_thetas;
+    dims[0] = d->n_out_thetas_2;
     dims[1] = n_out_phis;
     return 0;
 }
@@ -462,7 +462,7 @@ int solution_flux_div_l_dims(xrtm_data *d, enum xrtm_solver_mask solver, int sol
 
 int radiance_out_phis_dims(xrtm_data *d, enum xrtm_solver_mask solver, int n_out_phis, double **out_phis, size_t *dims)
 {
-    dims[0] = d->n_out_thetas;
+    dims[0] = d->n_out_thetas_2;
     dims[1] = n_out_phis;
     return 0;
 }
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 82b0302..6407db7 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -2420,7 +2420,7 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas, n_out_phis) < 0)
+     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas_2, n_out_phis) < 0)
           return NULL;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
      dims[0] = d->n_out_levels;
@@ -2561,7 +2561,7 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas, n_out_phis) < 0)
+     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas_2, n_out_phis) < 0)
           return NULL;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
      dims[0] = d->n_out_levels;
diff --git a/interfaces/xrtm_interface.def b/interfaces/xrtm_interface.def
index fd16cac..2f4a1d0 100644
--- a/interfaces/xrtm_interface.def
+++ b/interfaces/xrtm_interface.def
@@ -119,8 +119,8 @@ subprogram_general int 0 qx			        0, double 1 "d->n_quad" qx out;
 subprogram_general int 0 qw			        0, double 1 "d->n_quad" qw out;
 subprogram_general int 0 kernel_qx			0, double 1 "d->n_kernel_quad" kernel_qx out;
 subprogram_general int 0 kernel_qw			0, double 1 "d->n_kernel_quad" kernel_qw out;
-subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 n_out_phis in, double 2 "d->n_out_thetas" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out;
+subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
+subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out;
 subprogram_general int 0 mean_radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out;
 subprogram_general int 0 flux				0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out;
 subprogram_general int 0 flux_divergence		0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-- 
2.43.0


From d7d04ccc57c86c6cdd565e25edfb2cf060ee1fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:55 +0000
Subject: [PATCH 38/51] fix: the Fortran 77 interface declared the getters of
 real values as integer functions

---
 interfaces/xrtm_fd_int_f77.f | 20 +++++++--------
 interfaces/xrtm_int_f77.f    | 50 ++++++++++++++++++------------------
 2 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77.f b/interfaces/xrtm_fd_int_f77.f
index 5794ae0..0f1eb0d 100644
--- a/interfaces/xrtm_fd_int_f77.f
+++ b/interfaces/xrtm_fd_int_f77.f
@@ -78,7 +78,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_F_iso_top_p_bindx_f77
+      real*8 xrtm_fd_get_F_iso_top_p_bindx_f77
       xrtm_fd_get_F_iso_top_p_f77 = xrtm_fd_get_F_iso_top_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_F_iso_top_p_f77
@@ -111,7 +111,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_F_iso_bot_p_bindx_f77
+      real*8 xrtm_fd_get_F_iso_bot_p_bindx_f77
       xrtm_fd_get_F_iso_bot_p_f77 = xrtm_fd_get_F_iso_bot_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_F_iso_bot_p_f77
@@ -144,7 +144,7 @@ c***********************************************************************
       byte d(*)
       integer i_deriv
       real*8 levels_b_l(*)
-      integer xrtm_fd_get_levels_b_p_bindx_f77
+      real*8 xrtm_fd_get_levels_b_p_bindx_f77
       xrtm_fd_get_levels_b_p_f77 = xrtm_fd_get_levels_b_p_bindx_f77(d,
      &i_deriv, levels_b_l)
       end function xrtm_fd_get_levels_b_p_f77
@@ -177,7 +177,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_surface_b_p_bindx_f77
+      real*8 xrtm_fd_get_surface_b_p_bindx_f77
       xrtm_fd_get_surface_b_p_f77 = xrtm_fd_get_surface_b_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_surface_b_p_f77
@@ -232,7 +232,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_g_p_bindx_f77
+      real*8 xrtm_fd_get_g_p_bindx_f77
       xrtm_fd_get_g_p_f77 = xrtm_fd_get_g_p_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_fd_get_g_p_f77
@@ -292,7 +292,7 @@ c***********************************************************************
       integer i_deriv
       integer i_elem
       integer i_coef
-      integer xrtm_fd_get_coef_p_bindx_f77
+      real*8 xrtm_fd_get_coef_p_bindx_f77
       xrtm_fd_get_coef_p_f77 = xrtm_fd_get_coef_p_bindx_f77(d, i_layer,
      &i_deriv, i_elem, i_coef)
       end function xrtm_fd_get_coef_p_f77
@@ -349,7 +349,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_omega_p_bindx_f77
+      real*8 xrtm_fd_get_omega_p_bindx_f77
       xrtm_fd_get_omega_p_f77 = xrtm_fd_get_omega_p_bindx_f77(d,
      &i_layer, i_deriv)
       end function xrtm_fd_get_omega_p_f77
@@ -406,7 +406,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_ltau_p_bindx_f77
+      real*8 xrtm_fd_get_ltau_p_bindx_f77
       xrtm_fd_get_ltau_p_f77 = xrtm_fd_get_ltau_p_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_fd_get_ltau_p_f77
@@ -445,7 +445,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_deriv
-      integer xrtm_fd_get_kernel_ampfac_p_bindx_f77
+      real*8 xrtm_fd_get_kernel_ampfac_p_bindx_f77
       xrtm_fd_get_kernel_ampfac_p_f77 =
      &xrtm_fd_get_kernel_ampfac_p_bindx_f77(d, i_kernel, i_deriv)
       end function xrtm_fd_get_kernel_ampfac_p_f77
@@ -514,7 +514,7 @@ c***********************************************************************
       integer i_kernel
       integer i_deriv
       integer i_param
-      integer xrtm_fd_get_kernel_params_p_bindx_f77
+      real*8 xrtm_fd_get_kernel_params_p_bindx_f77
       xrtm_fd_get_kernel_params_p_f77 =
      &xrtm_fd_get_kernel_params_p_bindx_f77(d, i_kernel, i_deriv, i_param)
       end function xrtm_fd_get_kernel_params_p_f77
diff --git a/interfaces/xrtm_int_f77.f b/interfaces/xrtm_int_f77.f
index a82190d..a66cec7 100644
--- a/interfaces/xrtm_int_f77.f
+++ b/interfaces/xrtm_int_f77.f
@@ -156,7 +156,7 @@ c***********************************************************************
       real*8 function xrtm_get_doub_d_tau_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_doub_d_tau_bindx_f77
+      real*8 xrtm_get_doub_d_tau_bindx_f77
       xrtm_get_doub_d_tau_f77 = xrtm_get_doub_d_tau_bindx_f77(d)
       end function xrtm_get_doub_d_tau_f77
 
@@ -222,7 +222,7 @@ c***********************************************************************
       real*8 function xrtm_get_fourier_tol_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_fourier_tol_bindx_f77
+      real*8 xrtm_get_fourier_tol_bindx_f77
       xrtm_get_fourier_tol_f77 = xrtm_get_fourier_tol_bindx_f77(d)
       end function xrtm_get_fourier_tol_f77
 
@@ -240,7 +240,7 @@ c***********************************************************************
       real*8 function xrtm_get_lambda_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_lambda_bindx_f77
+      real*8 xrtm_get_lambda_bindx_f77
       xrtm_get_lambda_f77 = xrtm_get_lambda_bindx_f77(d)
       end function xrtm_get_lambda_f77
 
@@ -258,7 +258,7 @@ c***********************************************************************
       real*8 function xrtm_get_planet_r_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_planet_r_bindx_f77
+      real*8 xrtm_get_planet_r_bindx_f77
       xrtm_get_planet_r_f77 = xrtm_get_planet_r_bindx_f77(d)
       end function xrtm_get_planet_r_f77
 
@@ -356,7 +356,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_iso_top_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_iso_top_bindx_f77
+      real*8 xrtm_get_F_iso_top_bindx_f77
       xrtm_get_F_iso_top_f77 = xrtm_get_F_iso_top_bindx_f77(d)
       end function xrtm_get_F_iso_top_f77
 
@@ -387,7 +387,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_F_iso_top_l_bindx_f77
+      real*8 xrtm_get_F_iso_top_l_bindx_f77
       xrtm_get_F_iso_top_l_f77 = xrtm_get_F_iso_top_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_F_iso_top_l_f77
@@ -406,7 +406,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_iso_bot_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_iso_bot_bindx_f77
+      real*8 xrtm_get_F_iso_bot_bindx_f77
       xrtm_get_F_iso_bot_f77 = xrtm_get_F_iso_bot_bindx_f77(d)
       end function xrtm_get_F_iso_bot_f77
 
@@ -437,7 +437,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_F_iso_bot_l_bindx_f77
+      real*8 xrtm_get_F_iso_bot_l_bindx_f77
       xrtm_get_F_iso_bot_l_f77 = xrtm_get_F_iso_bot_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_F_iso_bot_l_f77
@@ -456,7 +456,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_0_bindx_f77
+      real*8 xrtm_get_F_0_bindx_f77
       xrtm_get_F_0_f77 = xrtm_get_F_0_bindx_f77(d)
       end function xrtm_get_F_0_f77
 
@@ -474,7 +474,7 @@ c***********************************************************************
       real*8 function xrtm_get_theta_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_theta_0_bindx_f77
+      real*8 xrtm_get_theta_0_bindx_f77
       xrtm_get_theta_0_f77 = xrtm_get_theta_0_bindx_f77(d)
       end function xrtm_get_theta_0_f77
 
@@ -492,7 +492,7 @@ c***********************************************************************
       real*8 function xrtm_get_phi_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_phi_0_bindx_f77
+      real*8 xrtm_get_phi_0_bindx_f77
       xrtm_get_phi_0_f77 = xrtm_get_phi_0_bindx_f77(d)
       end function xrtm_get_phi_0_f77
 
@@ -563,7 +563,7 @@ c***********************************************************************
       real*8 function xrtm_get_surface_b_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_surface_b_bindx_f77
+      real*8 xrtm_get_surface_b_bindx_f77
       xrtm_get_surface_b_f77 = xrtm_get_surface_b_bindx_f77(d)
       end function xrtm_get_surface_b_f77
 
@@ -594,7 +594,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_surface_b_l_bindx_f77
+      real*8 xrtm_get_surface_b_l_bindx_f77
       xrtm_get_surface_b_l_f77 = xrtm_get_surface_b_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_surface_b_l_f77
@@ -625,7 +625,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_g_bindx_f77
+      real*8 xrtm_get_g_bindx_f77
       xrtm_get_g_f77 = xrtm_get_g_bindx_f77(d, i_layer)
       end function xrtm_get_g_f77
 
@@ -679,7 +679,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_g_l_bindx_f77
+      real*8 xrtm_get_g_l_bindx_f77
       xrtm_get_g_l_f77 = xrtm_get_g_l_bindx_f77(d, i_layer, i_deriv)
       end function xrtm_get_g_l_f77
 
@@ -723,7 +723,7 @@ c***********************************************************************
       integer i_layer
       integer i_elem
       integer i_coef
-      integer xrtm_get_coef_bindx_f77
+      real*8 xrtm_get_coef_bindx_f77
       xrtm_get_coef_f77 = xrtm_get_coef_bindx_f77(d, i_layer, i_elem,
      &i_coef)
       end function xrtm_get_coef_f77
@@ -782,7 +782,7 @@ c***********************************************************************
       integer i_deriv
       integer i_elem
       integer i_coef
-      integer xrtm_get_coef_l_bindx_f77
+      real*8 xrtm_get_coef_l_bindx_f77
       xrtm_get_coef_l_f77 = xrtm_get_coef_l_bindx_f77(d, i_layer,
      &i_deriv, i_elem, i_coef)
       end function xrtm_get_coef_l_f77
@@ -813,7 +813,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_omega_bindx_f77
+      real*8 xrtm_get_omega_bindx_f77
       xrtm_get_omega_f77 = xrtm_get_omega_bindx_f77(d, i_layer)
       end function xrtm_get_omega_f77
 
@@ -869,7 +869,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_omega_l_bindx_f77
+      real*8 xrtm_get_omega_l_bindx_f77
       xrtm_get_omega_l_f77 = xrtm_get_omega_l_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_get_omega_l_f77
@@ -900,7 +900,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_ltau_bindx_f77
+      real*8 xrtm_get_ltau_bindx_f77
       xrtm_get_ltau_f77 = xrtm_get_ltau_bindx_f77(d, i_layer)
       end function xrtm_get_ltau_f77
 
@@ -955,7 +955,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_ltau_l_bindx_f77
+      real*8 xrtm_get_ltau_l_bindx_f77
       xrtm_get_ltau_l_f77 = xrtm_get_ltau_l_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_get_ltau_l_f77
@@ -976,7 +976,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_kernel
-      integer xrtm_get_kernel_ampfac_bindx_f77
+      real*8 xrtm_get_kernel_ampfac_bindx_f77
       xrtm_get_kernel_ampfac_f77 = xrtm_get_kernel_ampfac_bindx_f77(d,
      &i_kernel)
       end function xrtm_get_kernel_ampfac_f77
@@ -1013,7 +1013,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_param
-      integer xrtm_get_kernel_params_bindx_f77
+      real*8 xrtm_get_kernel_params_bindx_f77
       xrtm_get_kernel_params_f77 = xrtm_get_kernel_params_bindx_f77(d,
      &i_kernel, i_param)
       end function xrtm_get_kernel_params_f77
@@ -1051,7 +1051,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_deriv
-      integer xrtm_get_kernel_ampfac_l_bindx_f77
+      real*8 xrtm_get_kernel_ampfac_l_bindx_f77
       xrtm_get_kernel_ampfac_l_f77 =
      &xrtm_get_kernel_ampfac_l_bindx_f77(d, i_kernel, i_deriv)
       end function xrtm_get_kernel_ampfac_l_f77
@@ -1120,7 +1120,7 @@ c***********************************************************************
       integer i_kernel
       integer i_deriv
       integer i_param
-      integer xrtm_get_kernel_params_l_bindx_f77
+      real*8 xrtm_get_kernel_params_l_bindx_f77
       xrtm_get_kernel_params_l_f77 =
      &xrtm_get_kernel_params_l_bindx_f77(d, i_kernel, i_deriv, i_param)
       end function xrtm_get_kernel_params_l_f77
-- 
2.43.0


From a45f7d157f4a6c4ee2671711ab2ba30f84bef3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:55 +0000
Subject: [PATCH 39/51] fix: xrtm_get_levels_b_l returned its status as a
 double, which every wrapper took for an int

---
 src/prototypes/xrtm_interface_p.h | 2 +-
 src/xrtm_interface.c              | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/prototypes/xrtm_interface_p.h b/src/prototypes/xrtm_interface_p.h
index c7ff6f8..2995ed6 100644
--- a/src/prototypes/xrtm_interface_p.h
+++ b/src/prototypes/xrtm_interface_p.h
@@ -104,7 +104,7 @@ int xrtm_set_levels_b(xrtm_data *d, double *levels_b);
 int xrtm_get_levels_b(xrtm_data *d, double *levels_b);
 int xrtm_set_levels_b_l_1(xrtm_data *d, int i_deriv, double *levels_b_l);
 int xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l);
-double xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l);
+int xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l);
 int xrtm_set_surface_b(xrtm_data *d, double surface_b);
 double xrtm_get_surface_b(xrtm_data *d);
 int xrtm_set_surface_b_l_1(xrtm_data *d, int i_deriv, double surface_b_l);
diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 2eafc85..7c028ee 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3749,16 +3749,16 @@ int xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l) {
 
 
 
-double xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) {
+int xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) {
 
      int i;
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_DBL_ERROR;
+          return XRTM_INT_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      for (i = 0; i < d->n_layers + 1; ++i)
           levels_b_l[i] = d->levels_b_l[i][i_deriv];
-- 
2.43.0


From 060acdefdc479133e1a84d54270e94411c1450cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:02 +0000
Subject: [PATCH 40/51] fix: finite differences ignored perturbations of the
 isotropic illumination without thermal sources

---
 src/xrtm_fd_interface.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index dfa0414..4b06092 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1001,17 +1001,17 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
      double *levels_b;
 
-     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
-           if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
-                fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
-                return XRTM_INT_ERROR;
-           }
+     if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
+          fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
+          return XRTM_INT_ERROR;
+     }
 
-           if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
-                fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
-                return XRTM_INT_ERROR;
-           }
+     if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
+          fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
+          return XRTM_INT_ERROR;
+     }
 
+     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
            levels_b = alloc_array1_d(d->d->n_layers + 1);
 
            if (xrtm_get_levels_b(d->d, levels_b)) {
-- 
2.43.0


From 35b885c9fc15e02880e703ce4a28f93ca30ac8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:22 +0000
Subject: [PATCH 41/51] fix: central differences were divided by half of the
 distance between the two solutions

---
 src/xrtm_fd_interface.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 4b06092..f32bb53 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1216,8 +1216,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m]  = I_p2[i][k][l][m] / d->delta[j];
-                                   I_m_l[i][j][k][l][m]  = I_m2[i][k][l][m] / d->delta[j];
+                                   I_p_l[i][j][k][l][m]  = I_p2[i][k][l][m] / (2. * d->delta[j]);
+                                   I_m_l[i][j][k][l][m]  = I_m2[i][k][l][m] / (2. * d->delta[j]);
                               }
                          }
                     }
@@ -1237,8 +1237,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] -= I_p2[i][k][l][m] / d->delta[j];
-                                   I_m_l[i][j][k][l][m] -= I_m2[i][k][l][m] / d->delta[j];
+                                   I_p_l[i][j][k][l][m] -= I_p2[i][k][l][m] / (2. * d->delta[j]);
+                                   I_m_l[i][j][k][l][m] -= I_m2[i][k][l][m] / (2. * d->delta[j]);
                               }
                          }
                     }
-- 
2.43.0


From ccfd41eaddf5556c26417211f3afa29712a7fc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:49 +0000
Subject: [PATCH 42/51] fix: realloc_array7() used an uninitialised extent

---
 misc/gutil_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/gutil_alloc.c b/misc/gutil_alloc.c
index 742e28a..f5890b4 100644
--- a/misc/gutil_alloc.c
+++ b/misc/gutil_alloc.c
@@ -822,7 +822,7 @@ void *******realloc_array7(void *******a, size_t m, size_t n, size_t o, size_t p
      dimen[1] = n;
      dimen[2] = o;
      dimen[3] = p;
-     dimen[3] = q;
+     dimen[4] = q;
      dimen[5] = r;
      dimen[6] = s;
 
-- 
2.43.0


From e2a140f66b2879e953bf34fa8adea617cdfd8a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:49 +0000
Subject: [PATCH 43/51] fix: arrays with an extent of zero wrote an index table
 entry beyond their block

---
 misc/gutil_alloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/misc/gutil_alloc.c b/misc/gutil_alloc.c
index f5890b4..4ec3bab 100644
--- a/misc/gutil_alloc.c
+++ b/misc/gutil_alloc.c
@@ -40,7 +40,7 @@ size_t array_mem_length(int rank, size_t *dimen, size_t size) {
  ******************************************************************************/
 static void **ptr_array_init(void **a, int rank, size_t *dimen, int length) {
 
-     if (rank > 0)
+     if (rank > 0 && length > 0)
           a[0] = ptr_array_init(a + length, rank - 1, dimen + 1, length * dimen[0]);
 
      return a;
@@ -97,6 +97,9 @@ static void *ptr_array_realloc(void **a1, int rank, size_t *dimen, int size, int
  ******************************************************************************/
 static void *from_mem_ptr_array(void **a, void *a2, int rank, size_t *dimen, int length) {
 
+     if (length == 0)
+          return (void *) a;
+
      if (rank == 1)
           a[0] = a2;
      else
-- 
2.43.0


From 8edb044d6242d16253f763e87265bf10f54237c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:49 +0000
Subject: [PATCH 44/51] fix: copy_array() copied the index tables instead of
 the elements, dup_array() never set them up

---
 misc/gutil_alloc.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/misc/gutil_alloc.c b/misc/gutil_alloc.c
index 4ec3bab..e42c34d 100644
--- a/misc/gutil_alloc.c
+++ b/misc/gutil_alloc.c
@@ -279,6 +279,14 @@ void copy_array(void *a2, void *a1, int rank, size_t *dimen, int size) {
      for (i = 1; i < rank; ++i)
           length *= dimen[i];
 
+     if (length == 0)
+          return;
+
+     for (i = 1; i < rank; ++i) {
+          a1 = *((void **) a1);
+          a2 = *((void **) a2);
+     }
+
      memcpy(a2, a1, length * size);
 }
 
@@ -288,8 +296,9 @@ void *dup_array(void *a1, int rank, size_t *dimen, int size) {
 
      void *a2;
 
-     a2 = ptr_array_alloc(rank, dimen, size, 0);
-     copy_array(a2, a1, rank, dimen, size);
+     a2 = alloc_array(rank, dimen, size);
+     if (a2)
+          copy_array(a2, a1, rank, dimen, size);
 
      return a2;
 }
-- 
2.43.0


From 2e769239eea8bca299adc4d8f16a7600200f0810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:53 +0000
Subject: [PATCH 45/51] fix: release set_flags_kernel_func with the rest of the
 record of inputs

---
 src/xrtm_interface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 7c028ee..73419a1 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2585,6 +2585,7 @@ static int check_inputs_initialized(xrtm_data *d) {
      if (d->n_kernels > 0) {
           free_array1_uc(d->set_flags_kernel_ampfac);
           free_array2_uc(d->set_flags_kernel_params);
+          free_array1_uc(d->set_flags_kernel_func);
      }
 
      d->inputs_initialized = 0;
-- 
2.43.0


From b3cfef036feeb0eee5a9a2a8d2f47554168f2a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:53 +0000
Subject: [PATCH 46/51] fix: release the DQQ work arrays

---
 src/xrtm_work.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/xrtm_work.c b/src/xrtm_work.c
index 2ce52be..b92ae37 100644
--- a/src/xrtm_work.c
+++ b/src/xrtm_work.c
@@ -118,6 +118,8 @@ void work_free(work_data *work) {
      free_work(w, WORK_IX,      (void (*)(void *)) free_array1_i);
      free_work(w, WORK_IX2,     (void (*)(void *)) free_array1_i);
 
+     free_work(w, WORK_DQQ,     (void (*)(void *)) free_array2_d);
+
      free_work(w, WORK_DX,      (void (*)(void *)) free_array1_d);
      free_work(w, WORK_DX2,     (void (*)(void *)) free_array1_d);
 
-- 
2.43.0


From 01096f3b857c1f52c564e78ce8c33f555f316008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:26 +0000
Subject: [PATCH 47/51] fix: build_txr_a keeps the adjoints already accumulated
 in r_p_a

---
 src/xrtm_utility_a.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_utility_a.c b/src/xrtm_utility_a.c
index b998299..944c04f 100644
--- a/src/xrtm_utility_a.c
+++ b/src/xrtm_utility_a.c
@@ -250,10 +250,11 @@ void build_txr_a(int n_quad, int n_stokes,
      dmat_add(t_p_a, w1, t_p_a, n_quad_v, n_quad_v);
 
      dmat_sub(tpr_a, tmr_a, w1, n_quad_v, n_quad_v);
-     dmat_add(r_p_a, w1, r_p_a, n_quad_v, n_quad_v);
 
      if (n_stokes > 2)
-          dmat_mul_D_A(n_quad, n_stokes, r_p_a, r_p_a);
+          dmat_mul_D_A(n_quad, n_stokes, w1, w1);
+
+     dmat_add(r_p_a, w1, r_p_a, n_quad_v, n_quad_v);
 
      dmat_zero(tpr_a, n_quad_v, n_quad_v);
      dmat_zero(tmr_a, n_quad_v, n_quad_v);
-- 
2.43.0


From cfb7a93760aff4ae046712c84e8664aa4001c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:40 +0000
Subject: [PATCH 48/51] fix: adjoints of adding when only the upper layer
 varies

---
 src/xrtm_adding_a.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/xrtm_adding_a.c b/src/xrtm_adding_a.c
index 596c28c..476ff44 100644
--- a/src/xrtm_adding_a.c
+++ b/src/xrtm_adding_a.c
@@ -36,6 +36,12 @@ static void add_ref_u_p_a(double **AXX, double **R23, double *S32_a, double *S31
 
 static void add_ref_p_u_a(double **AXX, double **R23, double *S12_a, double *S21_a, double *S31_a, int n, double atran, double *v1, double *v2) {
 
+     dvec_add(S21_a, S31_a, S21_a, n);
+
+     dmat_gxvxmx(1, AXX, S31_a, 1., v1, 0., n, n);
+
+     dmat_gxvxmx(1, R23, v1, 1., S12_a, 1., n, n);
+
      dvec_zero(S31_a, n);
 }
 
@@ -106,6 +112,35 @@ static void add_ref_u_l_a(double **PXX, int *i1, double **AXX, double **BXX, dou
 
 static void add_ref_l_u_a(double **PXX, int *i1, double **AXX, double **BXX, double *CXX, double **R23, double *S32, double **R12_a, double **T12_a, double *S12_a, double **R21_a, double **T21_a, double *S21_a, double **R13_a, double *S31_a, int n, double atran, double *atran_a, double *v1, double *v2, double **w1, double **w2, work_data work) {
 
+     double **DXX_a;
+
+     DXX_a = get_work1(&work, WORK_DXX);
+
+     dmat_add(R12_a, R13_a, R12_a, n, n);
+
+     dmat_gxgxmx(0, R13_a, 1, BXX, 1., DXX_a, 0., n, n, n);
+
+     dmat_gxgxmx(1, AXX, 0, R13_a, 1., w1, 0., n, n, n);
+     dmat_gxgxmx(1, R23, 0, w1, 1., T12_a, 1., n, n, n);
+
+     dvec_add(S21_a, S31_a, S21_a, n);
+
+     dmat_vxvtmx(S31_a, CXX, 1., DXX_a, 1., n, n);
+
+     dmat_gxvxmx(1, AXX, S31_a, 1., v1, 0., n, n);
+
+     *atran_a += dvec_dot(S32, v1, n);
+
+     dmat_gxvxmx(1, R23, v1, 1., S12_a, 1., n, n);
+
+     dmat_copy(w1, DXX_a, n, n);
+     dmat_getrs2('t', PXX, w1, n, n, i1);
+
+     dmat_add(T21_a, w1, T21_a, n, n);
+
+     dmat_gxgxmx(1, AXX, 0, w1, 1., w2, 0., n, n, n);
+     dmat_gxgxmx(1, R23, 0, w2, 1., R21_a, 1., n, n, n);
+
      dmat_zero(R13_a, n, n);
      dvec_zero(S31_a, n);
 }
-- 
2.43.0


From ab5dc3293369064d17d89dfd66806603f9f58066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 49/51] fix: build_phase_vecs_vector_gc_a keeps the adjoints
 accumulated for lower orders

---
 src/xrtm_scatter_a.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_scatter_a.c b/src/xrtm_scatter_a.c
index b2b76f7..63a77bc 100644
--- a/src/xrtm_scatter_a.c
+++ b/src/xrtm_scatter_a.c
@@ -215,7 +215,8 @@ void build_phase_vecs_vector_gc_a(int i_four, int n_coef, int n_mus, int n_stoke
      n_mus_v = n_mus * n_stokes1;
 
      if (i_four >= n_coef) {
-          init_array2_d(gc_a, 6, n_coef, 0.);
+          dvec_zero(P_pp_a, n_mus_v);
+          dvec_zero(P_mp_a, n_mus_v);
 
           return;
      }
-- 
2.43.0


From 36d64fa0ddb7de8ac9799eb3a28d25e40454542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:16 +0000
Subject: [PATCH 50/51] fix: inserting at the front of an empty circular list
 dereferences a null pointer

---
 misc/gstruct_dclist.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/gstruct_dclist.h b/misc/gstruct_dclist.h
index 496e3c9..ace5933 100644
--- a/misc/gstruct_dclist.h
+++ b/misc/gstruct_dclist.h
@@ -290,7 +290,7 @@ dcelem *dclist_insert_front(dclist *list, GSTRUCT_TYPE value) {
 
      tmp = dclist_insert(list, pos, value);
 
-     list->first = pos->next;
+     list->first = tmp;
 
      return tmp;
 }
@@ -403,7 +403,7 @@ void dclist_add_front(dclist *list, dcelem *elem) {
 
      dclist_add(list, pos, elem);
 
-     list->first = pos->next;
+     list->first = elem;
 }
 
 
-- 
2.43.0


From 70dfff242115e88fd75d35fee3a4c6a4f872f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:16 +0000
Subject: [PATCH 51/51] fix: array comparison functions ignore the first
 element

---
 misc/gutil_cmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/gutil_cmp.c b/misc/gutil_cmp.c
index 444c4f3..2333d37 100644
--- a/misc/gutil_cmp.c
+++ b/misc/gutil_cmp.c
@@ -39,7 +39,7 @@ int XCAT(cmp_n_, postfix_)(type_ *a, type_ *b, long n) {			\
 										\
      long i;									\
 										\
-     for (i = 1; i < n; ++i) {							\
+     for (i = 0; i < n; ++i) {							\
           if (a[i] < b[i])							\
                return -1;							\
           if (a[i] > b[i])							\
@@ -129,7 +129,7 @@ int XCAT(cmp_dec_n_, postfix_)(type_ *a, type_ *b, long n) {			\
 										\
      long i;									\
 										\
-     for (i = 1; i < n; ++i) {							\
+     for (i = 0; i < n; ++i) {							\
           if (a[i] > b[i])							\
                return -1;							\
           if (a[i] < b[i])							\
-- 
2.43.0

