From 053676ebee19194da9f969db4686b000118f860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:13 +0000
Subject: [PATCH 001/175] fix: decoding array-valued special parameters no
 longer overwrites the caller's parameter vector

---
 lenstronomy/Sampling/param_group.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lenstronomy/Sampling/param_group.py b/lenstronomy/Sampling/param_group.py
index 35a75aa..79f24b9 100644
--- a/lenstronomy/Sampling/param_group.py
+++ b/lenstronomy/Sampling/param_group.py
@@ -7,6 +7,8 @@ parameters you can safely ignore this.
 __author__ = "jhodonnell"
 __all__ = ["ModelParamGroup", "SingleParam", "ArrayParam"]
 
+import copy
+
 import numpy as np
 
 
@@ -304,6 +306,9 @@ class ArrayParam(ModelParamGroup):
         for name, count in self.param_names.items():
             if name not in kwargs_fixed:
                 params[name] = args[i : i + count]
+                if kwargs_lower is not None or kwargs_upper is not None:
+                    # do not write the imposed bounds into the caller's array
+                    params[name] = copy.copy(params[name])
 
                 if kwargs_lower is not None:
                     for j in range(len(params[name])):
-- 
2.43.0


From 956ec026a6cdae05ba8209332343d2f6021f4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:13 +0000
Subject: [PATCH 002/175] fix: Param defaults kwargs_fixed_extinction when an
 optical depth model has no fixed parameters given

---
 lenstronomy/Sampling/parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index 1556b09..f14d836 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -322,6 +322,10 @@ class Param(object):
             kwargs_fixed_tracer_source = [
                 {} for _ in range(len(self._tracer_source_model_list))
             ]
+        if kwargs_fixed_extinction is None:
+            kwargs_fixed_extinction = [
+                {} for _ in range(len(self._optical_depth_model_list))
+            ]
         if kwargs_fixed_special is None:
             kwargs_fixed_special = {}
 
-- 
2.43.0


From ede7f0ea4109b54cfd7b01a9672b7c1b689d1469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:13 +0000
Subject: [PATCH 003/175] fix: inverse lens scaling undoes mass scaling and
 general scaling in reversed order

---
 lenstronomy/Sampling/parameters.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index f14d836..8e477d2 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -906,6 +906,10 @@ class Param(object):
         if not (self._mass_scaling or self._general_scaling):
             return kwargs_lens_updated
 
+        if inverse is True:
+            # the inverse has to undo the individual scalings in reversed order
+            self._apply_general_scaling(kwargs_special, kwargs_lens_updated, inverse)
+
         # TODO: remove separate logic for mass scaling. either deprecate it
         # entirely, implement the details as a special case of general_scaling
         if self._mass_scaling:
@@ -926,6 +930,18 @@ class Param(object):
                     elif "k_eff" in kwargs:
                         kwargs["k_eff"] *= scale_factor
 
+        if inverse is not True:
+            self._apply_general_scaling(kwargs_special, kwargs_lens_updated, inverse)
+        return kwargs_lens_updated
+
+    def _apply_general_scaling(self, kwargs_special, kwargs_lens_updated, inverse):
+        """Applies the general scaling to the lens model parameters in place.
+
+        :param kwargs_special: keyword arguments of the 'special' arguments
+        :param kwargs_lens_updated: lens model keyword argument list (gets modified)
+        :param inverse: bool, if True, performs the inverse scaling
+        :return: None
+        """
         if self._general_scaling:
             for param_name in self._general_scaling_masks.keys():
                 factors = kwargs_special[f"{param_name}_scale_factor"]
@@ -944,8 +960,6 @@ class Param(object):
                                 * kwargs[param_name] ** _pows[scale_idx - 1]
                             )
 
-        return kwargs_lens_updated
-
     def _add_fixed_lens(self, kwargs_fixed, kwargs_init):
         kwargs_fixed_update = copy.deepcopy(kwargs_fixed)
         if self._solver is True:
-- 
2.43.0


From b6a62dd100d474a5cda880574b4cc9caf1d3d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:13 +0000
Subject: [PATCH 004/175] fix: point source solver uses the lens model with the
 currently sampled redshifts

---
 lenstronomy/Sampling/parameters.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index 8e477d2..820163b 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -396,6 +396,7 @@ class Param(object):
             self._solver = False
         else:
             self._solver = True
+            self._solver_param_module = solver_param_module
             self._solver_module = Solver(
                 solver_type=self._solver_type,
                 lensModel=self._lens_model_class,
@@ -1031,6 +1032,13 @@ class Param(object):
             self._image2SourceMapping = Image2SourceMapping(
                 lens_model=self._lens_model_class, source_model=self._source_model_class
             )
+            if self._solver is True:
+                self._solver_module = Solver(
+                    solver_type=self._solver_type,
+                    lensModel=self._lens_model_class,
+                    num_images=self._num_images,
+                    parameter_module=self._solver_param_module,
+                )
 
     def check_solver(self, kwargs_lens, kwargs_ps):
         """Test whether the image positions map back to the same source position :param
-- 
2.43.0


From e5eeb64b045eefc37f858ac7c7d5fde10a769cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:13 +0000
Subject: [PATCH 005/175] fix: LightParam handles the amplitude array of
 SHAPELETS_ELLIPSE

---
 lenstronomy/LightModel/light_param.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LightModel/light_param.py b/lenstronomy/LightModel/light_param.py
index 9ad3824..59c96dd 100644
--- a/lenstronomy/LightModel/light_param.py
+++ b/lenstronomy/LightModel/light_param.py
@@ -2,6 +2,13 @@ from lenstronomy.LightModel.light_model import LightModel
 
 __all__ = ["LightParam"]
 
+_SHAPELETS_MODELS = [
+    "SHAPELETS",
+    "SHAPELETS_POLAR",
+    "SHAPELETS_POLAR_EXP",
+    "SHAPELETS_ELLIPSE",
+]
+
 
 class LightParam(object):
     """Class manages the parameters corresponding to the LightModel() module.
@@ -55,7 +62,7 @@ class LightParam(object):
         self.upper_limit = kwargs_upper
         # check that n_max is fixed
         for k, model in enumerate(self.model_list):
-            if model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]:
+            if model in _SHAPELETS_MODELS:
                 if "n_max" not in self.kwargs_fixed[k]:
                     Warning("n_max needs to be fixed in %s." % model)
 
@@ -79,7 +86,7 @@ class LightParam(object):
             for name in param_names:
                 if name not in kwargs_fixed:
                     if (
-                        model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]
+                        model in _SHAPELETS_MODELS
                         and name == "amp"
                     ):
                         if "n_max" in kwargs_fixed:
@@ -141,7 +148,7 @@ class LightParam(object):
             for name in param_names:
                 if name not in kwargs_fixed:
                     if (
-                        model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]
+                        model in _SHAPELETS_MODELS
                         and name == "amp"
                     ):
                         n_max = kwargs_fixed.get("n_max", kwargs.get("n_max"))
@@ -213,7 +220,7 @@ class LightParam(object):
             for name in param_names:
                 if name not in kwargs_fixed:
                     if (
-                        model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]
+                        model in _SHAPELETS_MODELS
                         and name == "amp"
                     ):
                         if "n_max" not in kwargs_fixed:
-- 
2.43.0


From 93452c1a225bce2f72c40fd68b609dbd17f39a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:13 +0000
Subject: [PATCH 006/175] fix: number of linear parameters is defined for
 SERSIC_ELLIPSE_Q_PHI

---
 lenstronomy/LightModel/linear_basis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LightModel/linear_basis.py b/lenstronomy/LightModel/linear_basis.py
index 8e65696..2c5fd52 100644
--- a/lenstronomy/LightModel/linear_basis.py
+++ b/lenstronomy/LightModel/linear_basis.py
@@ -142,6 +142,7 @@ class LinearBasis(LightModelBase):
                 "SERSIC",
                 "SERSIC_ELLIPSE",
                 "SERSIC_ELLIPSE_FLEXION",
+                "SERSIC_ELLIPSE_Q_PHI",
                 "TRIPLE_CHAMELEON",
                 "UNIFORM",
             ]:
-- 
2.43.0


From 07fa6dca978a09085b980478890fd35eb3dd4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:13 +0000
Subject: [PATCH 007/175] fix: missing comma in parameter names of
 CTNFW_GAUSS_DEC

---
 lenstronomy/LensModel/Profiles/gauss_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/gauss_decomposition.py b/lenstronomy/LensModel/Profiles/gauss_decomposition.py
index 4ca089e..49d4d79 100644
--- a/lenstronomy/LensModel/Profiles/gauss_decomposition.py
+++ b/lenstronomy/LensModel/Profiles/gauss_decomposition.py
@@ -555,7 +555,7 @@ class CTNFWGaussDec(GaussDecompositionAbstract3D):
     """This class computes the lensing properties of an projection from a spherical
     cored-truncated NFW profile using Shajib (2019)'s Gauss decomposition method."""
 
-    param_names = ["r_s", "r_core", "r_trunc", "a", "rho_s", "center_x" "center_y"]
+    param_names = ["r_s", "r_core", "r_trunc", "a", "rho_s", "center_x", "center_y"]
     lower_limit_default = {
         "r_s": 0,
         "r_core": 0,
-- 
2.43.0


From 1752c29d45ded07938c6553f0b290aaaf643894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:13 +0000
Subject: [PATCH 008/175] fix: default limits of ElliSLICE cover sigma_0

---
 lenstronomy/LensModel/Profiles/elliptical_density_slice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/elliptical_density_slice.py b/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
index ee0f98d..10eabde 100644
--- a/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
+++ b/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
@@ -41,6 +41,7 @@ class ElliSLICE(LensProfileBase):
         "a": 0.0,
         "b": 0.0,
         "psi": -90.0 / 180.0 * np.pi,
+        "sigma_0": 0.0,
         "center_x": -100.0,
         "center_y": -100.0,
     }
@@ -48,6 +49,7 @@ class ElliSLICE(LensProfileBase):
         "a": 100.0,
         "b": 100.0,
         "psi": 90.0 / 180.0 * np.pi,
+        "sigma_0": 100.0,
         "center_x": 100.0,
         "center_y": 100.0,
     }
-- 
2.43.0


From 069d3057c737e7cbcca5df21a9d9e835d05c9cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:13 +0000
Subject: [PATCH 009/175] fix: default limits for ARC_PERT

---
 .../LensModel/Profiles/arc_perturbations.py        | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/arc_perturbations.py b/lenstronomy/LensModel/Profiles/arc_perturbations.py
index 12f3a6e..82b9c24 100644
--- a/lenstronomy/LensModel/Profiles/arc_perturbations.py
+++ b/lenstronomy/LensModel/Profiles/arc_perturbations.py
@@ -11,6 +11,20 @@ class ArcPerturbations(LensProfileBase):
     directions to perturb a lensing potential."""
 
     param_names = ["coeff", "d_r", "d_phi", "center_x", "center_y"]
+    lower_limit_default = {
+        "coeff": -10,
+        "d_r": 0,
+        "d_phi": 0,
+        "center_x": -100,
+        "center_y": -100,
+    }
+    upper_limit_default = {
+        "coeff": 10,
+        "d_r": 100,
+        "d_phi": 2 * np.pi,
+        "center_x": 100,
+        "center_y": 100,
+    }
 
     def __init__(self):
         super(ArcPerturbations, self).__init__()
-- 
2.43.0


From ac60a2d7ef46f39ba92b350df092676bd85ed70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:13 +0000
Subject: [PATCH 010/175] fix: default limits of CORE_SERSIC cover R_sersic

---
 lenstronomy/LightModel/Profiles/sersic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/LightModel/Profiles/sersic.py b/lenstronomy/LightModel/Profiles/sersic.py
index 486f8a8..815bbe4 100644
--- a/lenstronomy/LightModel/Profiles/sersic.py
+++ b/lenstronomy/LightModel/Profiles/sersic.py
@@ -222,6 +222,7 @@ class CoreSersic(SersicUtil):
     ]
     lower_limit_default = {
         "amp": 0,
+        "R_sersic": 0,
         "Rb": 0,
         "n_sersic": 0.5,
         "gamma": 0,
@@ -232,6 +233,7 @@ class CoreSersic(SersicUtil):
     }
     upper_limit_default = {
         "amp": 100,
+        "R_sersic": 100,
         "Rb": 100,
         "n_sersic": 8,
         "gamma": 10,
-- 
2.43.0


From 70e815683a5d0654ca451787d65a50a5ca0dc539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:14 +0000
Subject: [PATCH 011/175] fix: LightParam handles the amplitude array of
 MGE_SET models

---
 lenstronomy/LightModel/light_param.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lenstronomy/LightModel/light_param.py b/lenstronomy/LightModel/light_param.py
index 59c96dd..490007b 100644
--- a/lenstronomy/LightModel/light_param.py
+++ b/lenstronomy/LightModel/light_param.py
@@ -124,6 +124,10 @@ class LightParam(object):
                         num_param = n_scales * n_pixels
                         kwargs["amp"] = args[i : i + num_param]
                         i += num_param
+                    elif model in ["MGE_SET", "MGE_SET_ELLIPSE"] and name == "amp":
+                        num_param = self._lightModel.func_list[k].num_linear
+                        kwargs["amp"] = args[i : i + num_param]
+                        i += num_param
                     else:
                         kwargs[name] = args[i]
                         i += 1
@@ -203,6 +207,10 @@ class LightParam(object):
                         raise ValueError(
                             "'sigma' must be a fixed keyword argument for MULTI_GAUSSIAN"
                         )
+                    elif model in ["MGE_SET", "MGE_SET_ELLIPSE"] and name == "amp":
+                        num_param = self._lightModel.func_list[k].num_linear
+                        for i in range(num_param):
+                            args.append(kwargs[name][i])
                     else:
                         args.append(kwargs[name])
         return args
@@ -260,6 +268,11 @@ class LightParam(object):
                         num += num_param
                         for i in range(num_param):
                             name_list.append(str(name + "_" + self._type + str(k)))
+                    elif model in ["MGE_SET", "MGE_SET_ELLIPSE"] and name == "amp":
+                        num_param = self._lightModel.func_list[k].num_linear
+                        num += num_param
+                        for i in range(num_param):
+                            name_list.append(str(name + "_" + self._type + str(k)))
                     else:
                         num += 1
                         name_list.append(str(name + "_" + self._type + str(k)))
-- 
2.43.0


From 5139f3b58183824e46aad4d9ec96ccf6386cf1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:12 +0000
Subject: [PATCH 012/175] fix: several log-sampling settings for the same lens
 model add up

---
 lenstronomy/Sampling/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index 820163b..43d5976 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -870,7 +870,7 @@ class Param(object):
         for setting in log_sampling_lens:
             i_1, param_list = setting
             if type(param_list) == list:
-                kwargs_logsampling_lens[i_1] = param_list
+                kwargs_logsampling_lens[i_1] = kwargs_logsampling_lens[i_1] + param_list
             else:
                 raise TypeError(
                     "Bad format for constraint setting: got %s. This should be in the format [[i_1, ['param_name1', 'param_name2', ...]], [...], ...]"
-- 
2.43.0


From 9727c6d36dd89415369c971dc48740f998d437e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:12 +0000
Subject: [PATCH 013/175] fix: UpdateManager does not modify the user's
 settings and can restore the initial state

---
 lenstronomy/Workflow/update_manager.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/Workflow/update_manager.py b/lenstronomy/Workflow/update_manager.py
index bedbf0e..d3c2979 100644
--- a/lenstronomy/Workflow/update_manager.py
+++ b/lenstronomy/Workflow/update_manager.py
@@ -33,9 +33,11 @@ class UpdateManager(object):
          'special': [kwargs_init, kwargs_sigma, kwargs_fixed, kwargs_lower, kwargs_upper]
 
         """
-        self.kwargs_model = kwargs_model
-        self.kwargs_constraints = kwargs_constraints
-        self.kwargs_likelihood = kwargs_likelihood
+        # the settings get modified by this class, work on copies of the user's input
+        self.kwargs_model = dict(kwargs_model)
+        self.kwargs_constraints = dict(kwargs_constraints)
+        self.kwargs_likelihood = dict(kwargs_likelihood)
+        kwargs_params = copy.deepcopy(kwargs_params)
 
         if kwargs_model.get("lens_model_list", None) is not None:
             (
@@ -151,7 +153,7 @@ class UpdateManager(object):
                 self._special_lower,
                 self._special_upper,
             ) = ({}, {}, {}, {}, {})
-        self._kwargs_temp = self.init_kwargs
+        self._kwargs_temp = copy.deepcopy(self.init_kwargs)
 
     # TODO: check compatibility with number of point sources provided as well as other parameter labeling
     # TODO: give raise statement if sigma value is =0
@@ -339,7 +341,7 @@ class UpdateManager(object):
 
         :return:
         """
-        self._kwargs_temp = self.init_kwargs
+        self._kwargs_temp = copy.deepcopy(self.init_kwargs)
 
     @property
     def parameter_state(self):
-- 
2.43.0


From 74d5c57e20b6239bcb2a1ac2495469fbd2171b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:12 +0000
Subject: [PATCH 014/175] fix: fixing the frames of not computed bands does not
 alias the parameter state

---
 lenstronomy/Workflow/multi_band_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/multi_band_manager.py b/lenstronomy/Workflow/multi_band_manager.py
index f51bfa8..86ea325 100644
--- a/lenstronomy/Workflow/multi_band_manager.py
+++ b/lenstronomy/Workflow/multi_band_manager.py
@@ -67,7 +67,9 @@ class MultiBandUpdateManager(UpdateManager):
         for j in frame_list_fixed:
             if self._index_lens_model_list[j] is not None:
                 for i in self._index_lens_model_list[j]:
-                    self._lens_fixed[i] = self._kwargs_temp["kwargs_lens"][i]
+                    self._lens_fixed[i] = copy.deepcopy(
+                        self._kwargs_temp["kwargs_lens"][i]
+                    )
 
     def undo_frame_fixed(self, frame_list):
         """
-- 
2.43.0


From 2b07fa1a84c2264a78c8cdbe1673e7ccada5c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:12 +0000
Subject: [PATCH 015/175] fix: MCMC step does not write its samples into the
 user's fitting list

---
 lenstronomy/Workflow/fitting_sequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index 1c73575..e45bdab 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -143,6 +143,7 @@ class FittingSequence(object):
                 if fitting_type == "MCMC":
                     print("MCMC selected. Sampling with default option emcee.")
                     fitting_type = "emcee"
+                kwargs = dict(kwargs)  # do not modify the user's fitting list
                 if "init_samples" not in kwargs:
                     kwargs["init_samples"] = self._mcmc_init_samples
                 elif kwargs["init_samples"] is None:
-- 
2.43.0


From da0519d8bd24ed84f149a85e866e177820f296f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:25 +0000
Subject: [PATCH 016/175] fix: setting a parameter value does not change
 results returned earlier

---
 lenstronomy/Workflow/update_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/Workflow/update_manager.py b/lenstronomy/Workflow/update_manager.py
index d3c2979..38c7758 100644
--- a/lenstronomy/Workflow/update_manager.py
+++ b/lenstronomy/Workflow/update_manager.py
@@ -445,6 +445,8 @@ class UpdateManager(object):
             lens_light = []
         if ps is None:
             ps = []
+        # previously returned results must not change
+        self._kwargs_temp = copy.deepcopy(self._kwargs_temp)
         for items, kwargs_key in zip(
             [lens, source, lens_light, ps],
             ["kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps"],
-- 
2.43.0


From 6e12820fd910cd231a80cbe7cb3799df56954ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:28 +0000
Subject: [PATCH 017/175] fix: freezing a Chameleon profile again does not use
 the previously frozen values

---
 lenstronomy/LensModel/Profiles/chameleon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/chameleon.py b/lenstronomy/LensModel/Profiles/chameleon.py
index 3b732e0..c8bde1d 100644
--- a/lenstronomy/LensModel/Profiles/chameleon.py
+++ b/lenstronomy/LensModel/Profiles/chameleon.py
@@ -226,6 +226,8 @@ class Chameleon(LensProfileBase):
         :return:
         """
         self._static = True
+        self._nie_1.set_dynamic()
+        self._nie_2.set_dynamic()
         (
             self._theta_convert_static,
             self._w_c_static,
-- 
2.43.0


From 8f501564cab6c4e123f1d893eaa3656c3cc9d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:28 +0000
Subject: [PATCH 018/175] fix: several BPL profiles can be frozen in one lens
 model

---
 lenstronomy/LensModel/profile_list_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/profile_list_base.py b/lenstronomy/LensModel/profile_list_base.py
index df6ecdc..3f79f82 100644
--- a/lenstronomy/LensModel/profile_list_base.py
+++ b/lenstronomy/LensModel/profile_list_base.py
@@ -110,6 +110,7 @@ _SUPPORTED_MODELS = [
 # interpolated. This list does not need to include profiles with different initialization settings,
 # e.g. GNFW, since that is handled automatically in _load_model_instances()
 DYNAMIC_PROFILES = [
+    "BPL",
     "CHAMELEON",
     "CTNFW_GAUSS_DEC",
     "DOUBLE_CHAMELEON",
-- 
2.43.0


From 2aa7be71787193b9884b2c00fa9b80f6a08ea1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:28 +0000
Subject: [PATCH 019/175] fix: GreenBoschNFW evaluates the parameters it is
 given, not the first ones it saw

---
 lenstronomy/LensModel/Profiles/greenboschnfw.py       | 1 +
 lenstronomy/LensModel/Profiles/radial_interpolated.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/greenboschnfw.py b/lenstronomy/LensModel/Profiles/greenboschnfw.py
index 53cb413..0ccb817 100644
--- a/lenstronomy/LensModel/Profiles/greenboschnfw.py
+++ b/lenstronomy/LensModel/Profiles/greenboschnfw.py
@@ -253,6 +253,7 @@ class GreenBoschNFW(LensProfileBase):
             kappa_vals.append(kappa)
 
         kappa_r = np.array(kappa_vals)
+        self._rad_interp.set_dynamic()
         self._last_params = params
         self._cached = (kappa_r, r_bin)
 
diff --git a/lenstronomy/LensModel/Profiles/radial_interpolated.py b/lenstronomy/LensModel/Profiles/radial_interpolated.py
index af2f4d8..8b47aaa 100644
--- a/lenstronomy/LensModel/Profiles/radial_interpolated.py
+++ b/lenstronomy/LensModel/Profiles/radial_interpolated.py
@@ -247,6 +247,8 @@ class RadialInterpolate(LensProfileBase):
         """
         if hasattr(self, "_interp_m_enclosed_over_r"):
             del self._interp_m_enclosed_over_r
+        if hasattr(self, "_interp_m_enclosed"):
+            del self._interp_m_enclosed
         if hasattr(self, "_interp_kappa"):
             del self._interp_kappa
         if hasattr(self, "_interp_potential_over_r2"):
-- 
2.43.0


From 2ba98f27bbfc3e5b3f9b27111b9eaf12e8ce6c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:28 +0000
Subject: [PATCH 020/175] fix: changing source redshift or cosmology keeps a
 multi-plane model frozen

---
 lenstronomy/LensModel/lens_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lenstronomy/LensModel/lens_model.py b/lenstronomy/LensModel/lens_model.py
index 61dd42e..bb8276d 100644
--- a/lenstronomy/LensModel/lens_model.py
+++ b/lenstronomy/LensModel/lens_model.py
@@ -618,7 +618,9 @@ class LensModel(object):
                 # TODO: is it possible to not re-initialize it for performance improvements?
                 kwargs_lens_class = self.lens_model.kwargs_class
                 kwargs_lens_class["z_source"] = z_source
+                ignore_observed = self.lens_model.ignore_observed_positions
                 self.lens_model = MultiPlane(**kwargs_lens_class)
+                self.lens_model.ignore_observed_positions = ignore_observed
         else:
             if self._los_effects is True:
                 raise NotImplementedError(
@@ -666,7 +668,9 @@ class LensModel(object):
                 # TODO: is it possible to not re-initialize it for performance improvements?
                 kwargs_lens_class = self.lens_model.kwargs_class
                 kwargs_lens_class["cosmo"] = cosmo
+                ignore_observed = self.lens_model.ignore_observed_positions
                 self.lens_model = MultiPlane(**kwargs_lens_class)
+                self.lens_model.ignore_observed_positions = ignore_observed
         else:
             if self.z_lens is not None and self.z_source is not None:
                 alpha_scaling = self._lensCosmo.beta_double_source_plane(
-- 
2.43.0


From c0e1ff3a34eeb32a218608047392a1212164a9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:28 +0000
Subject: [PATCH 021/175] fix: NIE_SIMPLE declares exactly the parameters it
 accepts, with limits

---
 lenstronomy/LensModel/Profiles/nie.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/nie.py b/lenstronomy/LensModel/Profiles/nie.py
index 64b5c57..4dc55ba 100644
--- a/lenstronomy/LensModel/Profiles/nie.py
+++ b/lenstronomy/LensModel/Profiles/nie.py
@@ -238,7 +238,9 @@ class NIEMajorAxis(LensProfileBase):
 
     """
 
-    param_names = ["b", "s", "q", "center_x", "center_y"]
+    param_names = ["b", "s", "q"]
+    lower_limit_default = {"b": 0, "s": 0, "q": 0.01}
+    upper_limit_default = {"b": 10, "s": 100, "q": 1}
 
     def __init__(self, diff=0.0000000001):
         self._diff = diff
-- 
2.43.0


From 6aad28bf081242efe33a70a0cbe9789ce22d2bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:42 +0000
Subject: [PATCH 022/175] fix: selecting one component by index applies the
 source redshift scaling

---
 lenstronomy/LensModel/single_plane.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/lenstronomy/LensModel/single_plane.py b/lenstronomy/LensModel/single_plane.py
index 81aa8a6..c9ee5bb 100644
--- a/lenstronomy/LensModel/single_plane.py
+++ b/lenstronomy/LensModel/single_plane.py
@@ -92,8 +92,6 @@ class SinglePlane(ProfileListBase):
         y = np.array(y, dtype=float)
 
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
-        if isinstance(k, int):
-            return np.asarray(self.func_list[k].function(x, y, **kwargs[k]))
         bool_list = self._bool_list(k)
         potential = np.zeros_like(x)
         for i, func in enumerate(self.func_list):
@@ -116,9 +114,6 @@ class SinglePlane(ProfileListBase):
         x = np.array(x, dtype=float)
         y = np.array(y, dtype=float)
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
-        if isinstance(k, int):
-            f_x, f_y = self.func_list[k].derivatives(x, y, **kwargs[k])
-            return np.asarray(f_x), np.asarray(f_y)
         bool_list = self._bool_list(k)
         f_x, f_y = np.zeros_like(x), np.zeros_like(x)
         for i, func in enumerate(self.func_list):
@@ -148,14 +143,6 @@ class SinglePlane(ProfileListBase):
         y = np.array(y, dtype=float)
 
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
-        if isinstance(k, int):
-            f_xx, f_xy, f_yx, f_yy = self.func_list[k].hessian(x, y, **kwargs[k])
-            return (
-                np.asarray(f_xx),
-                np.asarray(f_xy),
-                np.asarray(f_yx),
-                np.asarray(f_yy),
-            )
 
         bool_list = self._bool_list(k)
         f_xx, f_xy, f_yx, f_yy = (
-- 
2.43.0


From dff48c43da2c07f74a5cf8736fe81d6985ee2d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:54 +0000
Subject: [PATCH 023/175] fix: Cartesian shapelet potential honours its centre
 when evaluated at a single point

---
 lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py b/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
index 5bedbd9..d3d9fa5 100644
--- a/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
+++ b/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
@@ -28,6 +28,7 @@ class CartShapelets(LensProfileBase):
         n_order = self._get_num_n(len(coeffs))
         n = len(np.atleast_1d(x))
         if n <= 1:
+            x, y = x - center_x, y - center_y
             f_ = self._shapeletOutput(x, y, beta, shapelets, precalc=False)
         else:
             H_x, H_y = self.pre_calc(x, y, beta, n_order, center_x, center_y)
@@ -42,6 +43,7 @@ class CartShapelets(LensProfileBase):
         dy_shapelets = self._dy_shapelets(shapelets, beta)
         n = len(np.atleast_1d(x))
         if n <= 1:
+            x, y = x - center_x, y - center_y
             f_x = self._shapeletOutput(x, y, beta, dx_shapelets, precalc=False)
             f_y = self._shapeletOutput(x, y, beta, dy_shapelets, precalc=False)
         else:
@@ -60,6 +62,7 @@ class CartShapelets(LensProfileBase):
         dxy_shapelets = self._dxy_shapelets(shapelets, beta)
         n = len(np.atleast_1d(x))
         if n <= 1:
+            x, y = x - center_x, y - center_y
             f_xx = self._shapeletOutput(x, y, beta, dxx_shapelets, precalc=False)
             f_yy = self._shapeletOutput(x, y, beta, dyy_shapelets, precalc=False)
             f_xy = self._shapeletOutput(x, y, beta, dxy_shapelets, precalc=False)
-- 
2.43.0


From 80527113cfadc243f994d11a5150a3a0f6fe57fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:54 +0000
Subject: [PATCH 024/175] fix: main-lens potential with line-of-sight
 corrections does not depend on the position in the model list

---
 lenstronomy/LensModel/LineOfSight/single_plane_los.py         | 4 ++--
 lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los.py b/lenstronomy/LensModel/LineOfSight/single_plane_los.py
index 44ad5af..7c54901 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los.py
@@ -399,7 +399,7 @@ class SinglePlaneLOS(SinglePlane):
               In the presence of LOS corrections, a lensing system does not always\
               derive from a potential.")
 
-        # kwargs_main, kwargs_los = self.split_lens_los(kwargs)
-        potential = self._main_lens.potential(x, y, kwargs, k=k)
+        kwargs_main, kwargs_los = self.split_lens_los(kwargs)
+        potential = self._main_lens.potential(x, y, kwargs_main, k=k)
 
         return potential
diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
index b2c9092..48186ca 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
@@ -594,7 +594,7 @@ class SinglePlaneLOSFlexion(SinglePlane):
               In the presence of LOS corrections, a lensing system does not always\
               derive from a potential.")
 
-        # kwargs_main, kwargs_los = self.split_lens_los(kwargs)
-        potential = self._main_lens.potential(x, y, kwargs, k=k)
+        kwargs_main, kwargs_los = self.split_lens_los_flexion(kwargs)
+        potential = self._main_lens.potential(x, y, kwargs_main, k=k)
 
         return potential
-- 
2.43.0


From 049ef121253924b405c723457e13aba013f640c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:36 +0000
Subject: [PATCH 025/175] fix: building a lens model does not write into the
 profile settings of the user

---
 lenstronomy/LensModel/profile_list_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lenstronomy/LensModel/profile_list_base.py b/lenstronomy/LensModel/profile_list_base.py
index 3f79f82..9dd7618 100644
--- a/lenstronomy/LensModel/profile_list_base.py
+++ b/lenstronomy/LensModel/profile_list_base.py
@@ -179,6 +179,10 @@ class ProfileListBase(object):
             lens_redshift_list = [None] * len(lens_model_list)
         if profile_kwargs_list is None:
             profile_kwargs_list = [{} for _ in range(len(lens_model_list))]
+        # copies, as settings are added below
+        profile_kwargs_list = [
+            {} if kwargs is None else dict(kwargs) for kwargs in profile_kwargs_list
+        ]
 
         # use_jax can be either a bool or list of bools to select specific models to be imported from jaxtronomy
         # If it's a bool, convert to list of bools
-- 
2.43.0


From 006ee9b3f4f2c542405d698fdb307753dab84ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:33 +0000
Subject: [PATCH 026/175] fix: y-deflection of polar shapelet potential is the
 gradient of its potential

---
 lenstronomy/LensModel/Profiles/shapelet_pot_polar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/shapelet_pot_polar.py b/lenstronomy/LensModel/Profiles/shapelet_pot_polar.py
index 706b9ca..9753d46 100644
--- a/lenstronomy/LensModel/Profiles/shapelet_pot_polar.py
+++ b/lenstronomy/LensModel/Profiles/shapelet_pot_polar.py
@@ -200,10 +200,10 @@ class PolarShapelets(LensProfileBase):
                 output_y[nl + 1][nr] += a_lr * np.sqrt(nl + 1) / 2 * 1j
                 if nl > 0:
                     output_x[nl - 1][nr] += a_lr * np.sqrt(nl) / 2
-                    output_y[nl - 1][nr] -= a_lr * np.sqrt(nl) / 2 * 1j
+                    output_y[nl - 1][nr] += a_lr * np.sqrt(nl) / 2 * 1j
                 if nr > 0:
                     output_x[nl][nr - 1] += a_lr * np.sqrt(nr) / 2
-                    output_y[nl][nr - 1] += a_lr * np.sqrt(nr) / 2 * 1j
+                    output_y[nl][nr - 1] -= a_lr * np.sqrt(nr) / 2 * 1j
         return output_x / beta, output_y / beta  # attention complex numbers!!!!
 
     def _gammaShapelets(self, shapelets, beta):
-- 
2.43.0


From f3492388338a84db544a79d837ab5a9a0d0fabb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:59 +0000
Subject: [PATCH 027/175] fix: off-diagonal Hessian of scaled interpolated lens
 is scaled once

---
 lenstronomy/LensModel/Profiles/interpol.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/interpol.py b/lenstronomy/LensModel/Profiles/interpol.py
index e00e295..b12b5d5 100644
--- a/lenstronomy/LensModel/Profiles/interpol.py
+++ b/lenstronomy/LensModel/Profiles/interpol.py
@@ -486,8 +486,9 @@ class InterpolScaled(LensProfileBase):
         f_xx_out, f_xy_out, f_yx_out, f_yy_out = self.interp_func.hessian(
             x, y, grid_interp_x, grid_interp_y, f_, f_x, f_y, f_xx, f_yy, f_xy
         )
-        f_xx_out *= scale_factor
-        f_yy_out *= scale_factor
-        f_xy_out *= scale_factor
-        f_yx_out *= scale_factor
+        f_xx_out = f_xx_out * scale_factor
+        f_yy_out = f_yy_out * scale_factor
+        # f_xy_out and f_yx_out can be the same array and must not be scaled in place
+        f_xy_out = f_xy_out * scale_factor
+        f_yx_out = f_yx_out * scale_factor
         return f_xx_out, f_xy_out, f_yx_out, f_yy_out
-- 
2.43.0


From 61562324f206ae3bea0e470c70553c4ac0cc7001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:29 +0000
Subject: [PATCH 028/175] fix: multi-plane arrival time with deflectors behind
 or at the source redshift, or no deflector

---
 .../LensModel/MultiPlane/multi_plane_base.py  | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane_base.py b/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
index deb1c8f..30c16ff 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
@@ -353,8 +353,8 @@ class MultiPlaneBase(ProfileListBase):
 
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
 
-        i = 0
         z_lens_last = 0
+        T_z_last = 0
         for i, index in enumerate(self._sorted_redshift_index):
             z_lens = self._lens_redshift_list[index]
             if z_lens <= z_stop:
@@ -379,6 +379,7 @@ class MultiPlaneBase(ProfileListBase):
 
                 dt_grav += dt_grav_new
                 z_lens_last = z_lens
+                T_z_last = self._T_z_list[i]
         if T_ij_end is None:
             T_ij_end = self._cosmo_bkg.T_xy(z_lens_last, z_stop)
         T_ij = T_ij_end
@@ -386,13 +387,15 @@ class MultiPlaneBase(ProfileListBase):
         if T_z_stop is None:
             T_z_stop = self._cosmo_bkg.T_xy(0, z_stop)
         T_j = T_z_stop
-        T_i = self._T_z_list[i]
-        beta_i_x, beta_i_y = x / T_i, y / T_i
-        beta_j_x, beta_j_y = x_new / T_j, y_new / T_j
-        dt_geo_new = self._geometrical_delay(
-            beta_i_x, beta_i_y, beta_j_x, beta_j_y, T_i, T_j, T_ij
-        )
-        dt_geo += dt_geo_new
+        # the last plane is the last one in front of the source
+        T_i = T_z_last
+        if T_i > 0 and T_ij > 0:
+            beta_i_x, beta_i_y = x / T_i, y / T_i
+            beta_j_x, beta_j_y = x_new / T_j, y_new / T_j
+            dt_geo_new = self._geometrical_delay(
+                beta_i_x, beta_i_y, beta_j_x, beta_j_y, T_i, T_j, T_ij
+            )
+            dt_geo += dt_geo_new
         return np.asarray(dt_geo), np.asarray(dt_grav)
 
     @staticmethod
-- 
2.43.0


From 4818f11e6ce91d1ffd4c9f9badd49ada18d82200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:29 +0000
Subject: [PATCH 029/175] fix: Hessian between two redshifts starts at the
 y-position of the ray

---
 lenstronomy/LensModel/MultiPlane/multi_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane.py b/lenstronomy/LensModel/MultiPlane/multi_plane.py
index 626d520..ee3efb6 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane.py
@@ -586,7 +586,7 @@ class MultiPlane(object):
 
         T_0z1 = self._multi_plane_base._cosmo_bkg.T_xy(0, z1)
         x = theta_x * T_0z1
-        y = theta_x * T_0z1
+        y = theta_y * T_0z1
         x_s0, y_s0, _, _ = self.ray_shooting_partial_comoving(
             x=x,
             y=y,
-- 
2.43.0


From df696f00812fc6520d25c828578d59c348b141a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:29 +0000
Subject: [PATCH 030/175] fix: observed deflector positions in models not
 listed by increasing redshift

---
 lenstronomy/LensModel/MultiPlane/multi_plane.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane.py b/lenstronomy/LensModel/MultiPlane/multi_plane.py
index ee3efb6..0763247 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane.py
@@ -766,7 +766,9 @@ class LensedLocation(object):
                 T_ij_end=None,
             )
 
-            T = self._multiplane.T_z_list[ind]
+            # distances are listed in the order of increasing redshift
+            index_sorted = list(self._multiplane.sorted_redshift_index).index(ind)
+            T = self._multiplane.T_z_list[index_sorted]
             new_kwargs[ind]["center_x"] = x / T
             new_kwargs[ind]["center_y"] = y / T
 
-- 
2.43.0


From 0856ee135b7688651689dd0d8e6f1272a9548e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:03 +0000
Subject: [PATCH 031/175] fix: point source list and linear response do not
 return image positions of previously evaluated parameters

---
 lenstronomy/PointSource/point_source_cached.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lenstronomy/PointSource/point_source_cached.py b/lenstronomy/PointSource/point_source_cached.py
index 52a0e42..a8607ac 100644
--- a/lenstronomy/PointSource/point_source_cached.py
+++ b/lenstronomy/PointSource/point_source_cached.py
@@ -28,6 +28,9 @@ class PointSourceCached(object):
             del self._y_source
 
     def set_save_cache(self, save_bool):
+        if save_bool and not self._save_cache:
+            # positions computed while the caching was switched off are not to be kept
+            self.delete_lens_model_cache()
         self._save_cache = save_bool
 
     def update_lens_model(self, lens_model_class):
-- 
2.43.0


From 996d4a03d14a78c4e52fd30698c849545424d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:36 +0000
Subject: [PATCH 032/175] fix: point sources at their own redshift leave the
 source redshift of the shared lens model as it was

---
 lenstronomy/PointSource/Types/base_ps.py      | 23 +++++++++++++++++++
 .../PointSource/Types/lensed_position.py      | 15 +++++++-----
 .../PointSource/Types/source_position.py      |  7 +++---
 lenstronomy/PointSource/point_source.py       |  4 +++-
 4 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/lenstronomy/PointSource/Types/base_ps.py b/lenstronomy/PointSource/Types/base_ps.py
index cf61233..ed256a9 100644
--- a/lenstronomy/PointSource/Types/base_ps.py
+++ b/lenstronomy/PointSource/Types/base_ps.py
@@ -1,9 +1,32 @@
 from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
+import functools
 import numpy as np
 
 __all__ = ["PSBase", "_expand_to_array", "_shrink_array"]
 
 
+def _at_source_redshift(func):
+    """Decorator of methods of PSBase() to execute them at the redshift of the point
+    source and to leave the LensModel() instance at the redshift it had before.
+
+    :param func: method of PSBase()
+    :return: decorated method
+    """
+
+    @functools.wraps(func)
+    def wrapper(self, *args, **kwargs):
+        if self._redshift is None or self._lens_model is None:
+            return func(self, *args, **kwargs)
+        z_source = self._lens_model.z_source
+        self._lens_model.change_source_redshift(self._redshift)
+        try:
+            return func(self, *args, **kwargs)
+        finally:
+            self._lens_model.change_source_redshift(z_source)
+
+    return wrapper
+
+
 class PSBase(object):
     """Base point source type class."""
 
diff --git a/lenstronomy/PointSource/Types/lensed_position.py b/lenstronomy/PointSource/Types/lensed_position.py
index 0561e44..365a20d 100644
--- a/lenstronomy/PointSource/Types/lensed_position.py
+++ b/lenstronomy/PointSource/Types/lensed_position.py
@@ -1,5 +1,9 @@
 import numpy as np
-from lenstronomy.PointSource.Types.base_ps import PSBase, _expand_to_array
+from lenstronomy.PointSource.Types.base_ps import (
+    PSBase,
+    _at_source_redshift,
+    _expand_to_array,
+)
 
 __all__ = ["LensedPositions"]
 
@@ -22,6 +26,7 @@ class LensedPositions(PSBase):
     #    super(LensedPositions, self).__init__(lens_model=lens_model, fixed_magnification=fixed_magnification,
     #                                          additional_image=additional_image)
 
+    @_at_source_redshift
     def image_position(
         self,
         kwargs_ps,
@@ -51,7 +56,6 @@ class LensedPositions(PSBase):
                 kwargs_lens_eqn_solver = {}
             ra_source, dec_source = self.source_position(kwargs_ps, kwargs_lens)
             # TODO: this solver does not distinguish between different frames/bands with partial lens models
-            self._solver.change_source_redshift(self._redshift)
             ra_image, dec_image = self._solver.image_position_from_source(
                 ra_source,
                 dec_source,
@@ -64,6 +68,7 @@ class LensedPositions(PSBase):
             dec_image = kwargs_ps["dec_image"]
         return np.array(ra_image), np.array(dec_image)
 
+    @_at_source_redshift
     def source_position(self, kwargs_ps, kwargs_lens=None):
         """Original source position (prior to lensing)
 
@@ -74,8 +79,6 @@ class LensedPositions(PSBase):
         """
         ra_image = kwargs_ps["ra_image"]
         dec_image = kwargs_ps["dec_image"]
-        self._lens_model.change_source_redshift(self._redshift)
-
         if self.k_list is None:
             x_source, y_source = self._lens_model.ray_shooting(
                 ra_image, dec_image, kwargs_lens
@@ -92,6 +95,7 @@ class LensedPositions(PSBase):
         y_source = np.mean(y_source)
         return np.array(x_source), np.array(y_source)
 
+    @_at_source_redshift
     def image_amplitude(
         self,
         kwargs_ps,
@@ -116,7 +120,6 @@ class LensedPositions(PSBase):
             details
         :return: array of image amplitudes
         """
-        self._lens_model.change_source_redshift(self._redshift)
         if self._fixed_magnification:
             if x_pos is not None and y_pos is not None:
                 ra_image, dec_image = x_pos, y_pos
@@ -145,6 +148,7 @@ class LensedPositions(PSBase):
                 point_amp = _expand_to_array(point_amp, len(x_pos))
         return np.array(point_amp)
 
+    @_at_source_redshift
     def source_amplitude(self, kwargs_ps, kwargs_lens=None):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
         in magnified on-sky positions, the intrinsic brightness is computed as the mean
@@ -158,7 +162,6 @@ class LensedPositions(PSBase):
         if self._fixed_magnification:
             source_amp = kwargs_ps["source_amp"]
         else:
-            self._lens_model.change_source_redshift(self._redshift)
             ra_image, dec_image = np.array(kwargs_ps["ra_image"]), np.array(
                 kwargs_ps["dec_image"]
             )
diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index 4a82889..26f9c58 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -1,6 +1,7 @@
 import numpy as np
 from lenstronomy.PointSource.Types.base_ps import (
     PSBase,
+    _at_source_redshift,
     _expand_to_array,
     _shrink_array,
 )
@@ -21,6 +22,7 @@ class SourcePositions(PSBase):
     :param mag_pert: optional list of fractional magnification pertubations applied to point source images
     """
 
+    @_at_source_redshift
     def image_position(
         self,
         kwargs_ps,
@@ -45,7 +47,6 @@ class SourcePositions(PSBase):
         if kwargs_lens_eqn_solver is None:
             kwargs_lens_eqn_solver = {}
         ra_source, dec_source = self.source_position(kwargs_ps)
-        self._solver.change_source_redshift(self._redshift)
         ra_image, dec_image = self._solver.image_position_from_source(
             ra_source,
             dec_source,
@@ -65,6 +66,7 @@ class SourcePositions(PSBase):
         dec_source = kwargs_ps["dec_source"]
         return np.array(ra_source), np.array(dec_source)
 
+    @_at_source_redshift
     def image_amplitude(
         self,
         kwargs_ps,
@@ -90,7 +92,6 @@ class SourcePositions(PSBase):
         :return: array of image amplitudes
         """
         if self._fixed_magnification:
-            self._lens_model.change_source_redshift(self._redshift)
             if x_pos is not None and y_pos is not None:
                 ra_image, dec_image = x_pos, y_pos
             else:
@@ -113,6 +114,7 @@ class SourcePositions(PSBase):
         point_amp *= np.array(mag_pert)
         return np.array(point_amp)
 
+    @_at_source_redshift
     def source_amplitude(self, kwargs_ps, kwargs_lens=None):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
         in magnified on-sky positions, the intrinsic brightness is computed as the mean
@@ -126,7 +128,6 @@ class SourcePositions(PSBase):
         if self._fixed_magnification:
             source_amp = kwargs_ps["source_amp"]
         else:
-            self._lens_model.change_source_redshift(self._redshift)
             ra_image, dec_image = self.image_position(kwargs_ps, kwargs_lens)
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["point_amp"]
diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index dc06ee5..662f091 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -498,10 +498,12 @@ class PointSource(object):
             if model in ["LENSED_POSITION", "SOURCE_POSITION"]:
                 x_pos = x_image_list[i]
                 y_pos = y_image_list[i]
-                # TODO: ray-trace to specific source redshift
+                z_source = self._lens_model.z_source
+                self._lens_model.change_source_redshift(self._redshift_list[i])
                 x_source, y_source = self._lens_model.ray_shooting(
                     x_pos, y_pos, kwargs_lens
                 )
+                self._lens_model.change_source_redshift(z_source)
                 dist = np.sqrt(
                     (x_source - x_source[0]) ** 2 + (y_source - y_source[0]) ** 2
                 )
-- 
2.43.0


From f1b6112ec00315687996b91d6e61a8429c410d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:36 +0000
Subject: [PATCH 033/175] fix: magnification perturbation does not accumulate
 in the point source amplitudes of the caller

---
 lenstronomy/PointSource/Types/source_position.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index 26f9c58..dd05d7d 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -111,8 +111,7 @@ class SourcePositions(PSBase):
                 point_amp = _expand_to_array(point_amp, len(x_pos))
         mag_pert = kwargs_ps.get("mag_pert", 1)
         mag_pert = _shrink_array(mag_pert, len(point_amp))
-        point_amp *= np.array(mag_pert)
-        return np.array(point_amp)
+        return np.array(point_amp) * np.array(mag_pert)
 
     @_at_source_redshift
     def source_amplitude(self, kwargs_ps, kwargs_lens=None):
-- 
2.43.0


From 8b5a9b03c7f0c3368f2b8a99f7ddb3062a7ca17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:36 +0000
Subject: [PATCH 034/175] fix: point source amplitudes respect the
 magnification limit of the image positions

---
 lenstronomy/PointSource/point_source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 662f091..38b02b7 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -372,6 +372,7 @@ class PointSource(object):
                 image_amp = model.image_amplitude(
                     kwargs_ps=kwargs_ps[i],
                     kwargs_lens=kwargs_lens,
+                    magnification_limit=self._magnification_limit,
                     kwargs_lens_eqn_solver=self._kwargs_lens_eqn_solver,
                 )
                 if self._flux_from_point_source_list[i]:
-- 
2.43.0


From 5c4a11fbd37bf7d018622c52e5578ba9d55bef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:37 +0000
Subject: [PATCH 035/175] fix: linear response of point sources uses the same
 redshift, lens models and perturbations as their amplitudes

---
 lenstronomy/PointSource/point_source.py | 27 ++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 38b02b7..2903b5e 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -424,14 +424,17 @@ class PointSource(object):
                     if with_amp:
                         mag = self.image_amplitude(kwargs_ps, kwargs_lens, k=i)[0]
                     else:
-                        mag = self._lens_model.magnification(x_pos, y_pos, kwargs_lens)
-                        mag = np.abs(mag)
+                        mag = self._unit_amplitude(
+                            i, kwargs_ps[i], kwargs_lens, len(x_pos)
+                        )
                     amp.append(list(mag))
                 else:
                     if with_amp:
                         mag = self.image_amplitude(kwargs_ps, kwargs_lens, k=i)[0]
                     else:
-                        mag = np.ones_like(x_pos)
+                        mag = self._unit_amplitude(
+                            i, kwargs_ps[i], kwargs_lens, len(x_pos)
+                        )
                     for j in range(len(x_pos)):
                         ra_pos.append([x_pos[j]])
                         dec_pos.append([y_pos[j]])
@@ -442,6 +445,24 @@ class PointSource(object):
             self._set_save_cache(self._save_cache)
         return ra_pos, dec_pos, amp, n
 
+    def _unit_amplitude(self, k, kwargs_ps, kwargs_lens, num_image):
+        """Image amplitudes of a point source model for unit linear amplitude
+        parameters, with the conventions of image_amplitude()
+
+        :param k: index of point source model
+        :param kwargs_ps: point source keyword arguments of model k
+        :param kwargs_lens: lens model keyword argument list
+        :param num_image: number of images
+        :return: image amplitudes
+        """
+        kwargs_unit = dict(kwargs_ps, source_amp=1.0, point_amp=np.ones(num_image))
+        return self._point_source_list[k].image_amplitude(
+            kwargs_ps=kwargs_unit,
+            kwargs_lens=kwargs_lens,
+            magnification_limit=self._magnification_limit,
+            kwargs_lens_eqn_solver=self._kwargs_lens_eqn_solver,
+        )
+
     def update_linear(self, param, i, kwargs_ps, kwargs_lens):
         """
 
-- 
2.43.0


From 6ef5d1f7c4dde67ff836ba64a83c26b27a515196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:37 +0000
Subject: [PATCH 036/175] fix: intrinsic amplitude of a point source defined in
 the source plane: absolute magnification and solver settings

---
 .../PointSource/Types/lensed_position.py      |  2 +-
 .../PointSource/Types/source_position.py      | 23 ++++++++++++++++---
 lenstronomy/PointSource/point_source.py       |  5 +++-
 .../PointSource/point_source_cached.py        | 21 +++++++++++++++--
 4 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/PointSource/Types/lensed_position.py b/lenstronomy/PointSource/Types/lensed_position.py
index 365a20d..4d91370 100644
--- a/lenstronomy/PointSource/Types/lensed_position.py
+++ b/lenstronomy/PointSource/Types/lensed_position.py
@@ -149,7 +149,7 @@ class LensedPositions(PSBase):
         return np.array(point_amp)
 
     @_at_source_redshift
-    def source_amplitude(self, kwargs_ps, kwargs_lens=None):
+    def source_amplitude(self, kwargs_ps, kwargs_lens=None, **kwargs):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
         in magnified on-sky positions, the intrinsic brightness is computed as the mean
         in the magnification corrected image position brightnesses.
diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index dd05d7d..034f408 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -114,7 +114,13 @@ class SourcePositions(PSBase):
         return np.array(point_amp) * np.array(mag_pert)
 
     @_at_source_redshift
-    def source_amplitude(self, kwargs_ps, kwargs_lens=None):
+    def source_amplitude(
+        self,
+        kwargs_ps,
+        kwargs_lens=None,
+        magnification_limit=None,
+        kwargs_lens_eqn_solver=None,
+    ):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
         in magnified on-sky positions, the intrinsic brightness is computed as the mean
         in the magnification corrected image position brightnesses.
@@ -122,13 +128,24 @@ class SourcePositions(PSBase):
         :param kwargs_ps: keyword arguments of the point source model
         :param kwargs_lens: keyword argument list of the lens model(s), used when
             brightness are defined in magnified on-sky positions
+        :param magnification_limit: float >0 or None, if float is set, only those images
+            will be computed that exceed the lensing magnification (absolute value)
+            limit
+        :param kwargs_lens_eqn_solver: keyword arguments specifying the numerical
+            settings for the lens equation solver see LensEquationSolver() class for
+            details
         :return: brightness amplitude (as numpy array)
         """
         if self._fixed_magnification:
             source_amp = kwargs_ps["source_amp"]
         else:
-            ra_image, dec_image = self.image_position(kwargs_ps, kwargs_lens)
+            ra_image, dec_image = self.image_position(
+                kwargs_ps,
+                kwargs_lens,
+                magnification_limit=magnification_limit,
+                kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
+            )
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["point_amp"]
-            source_amp = np.mean(np.array(point_amp) / np.array(mag))
+            source_amp = np.mean(np.array(point_amp) / np.array(np.abs(mag)))
         return np.array(source_amp)
diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 2903b5e..30f2f36 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -392,7 +392,10 @@ class PointSource(object):
         amp_list = []
         for i, model in enumerate(self._point_source_list):
             source_amp = model.source_amplitude(
-                kwargs_ps=kwargs_ps[i], kwargs_lens=kwargs_lens
+                kwargs_ps=kwargs_ps[i],
+                kwargs_lens=kwargs_lens,
+                magnification_limit=self._magnification_limit,
+                kwargs_lens_eqn_solver=self._kwargs_lens_eqn_solver,
             )
             if self._flux_from_point_source_list[i]:
                 amp_list.append(source_amp)
diff --git a/lenstronomy/PointSource/point_source_cached.py b/lenstronomy/PointSource/point_source_cached.py
index a8607ac..ba16c70 100644
--- a/lenstronomy/PointSource/point_source_cached.py
+++ b/lenstronomy/PointSource/point_source_cached.py
@@ -136,12 +136,29 @@ class PointSourceCached(object):
             kwargs_ps, kwargs_lens=kwargs_lens, x_pos=x_pos, y_pos=y_pos
         )
 
-    def source_amplitude(self, kwargs_ps, kwargs_lens=None):
+    def source_amplitude(
+        self,
+        kwargs_ps,
+        kwargs_lens=None,
+        magnification_limit=None,
+        kwargs_lens_eqn_solver=None,
+    ):
         """Intrinsic brightness amplitude of point source.
 
         :param kwargs_ps: keyword arguments of the point source model
         :param kwargs_lens: keyword argument list of the lens model(s), only used when
             positions are defined in image plane and have to be ray-traced back
+        :param magnification_limit: float >0 or None, if float is set, only those images
+            will be computed that exceed the lensing magnification (absolute value)
+            limit
+        :param kwargs_lens_eqn_solver: keyword arguments specifying the numerical
+            settings for the lens equation solver see LensEquationSolver() class for
+            details
         :return: brightness amplitude (as numpy array)
         """
-        return self._model.source_amplitude(kwargs_ps, kwargs_lens=kwargs_lens)
+        return self._model.source_amplitude(
+            kwargs_ps,
+            kwargs_lens=kwargs_lens,
+            magnification_limit=magnification_limit,
+            kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
+        )
-- 
2.43.0


From c19d313fdb7c040631a78bf569452b60f6b9e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:37 +0000
Subject: [PATCH 037/175] fix: search-width factor of image positions is
 applied

---
 lenstronomy/PointSource/point_source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 30f2f36..db41af0 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -269,8 +269,9 @@ class PointSource(object):
         """
         x_image_list = []
         y_image_list = []
-        if width_search_factor != 1 and hasattr(
-            self._kwargs_lens_eqn_solver, "search_window"
+        if (
+            width_search_factor != 1
+            and "search_window" in self._kwargs_lens_eqn_solver
         ):
             kwargs_lens_eqn_solver = copy.deepcopy(self._kwargs_lens_eqn_solver)
             kwargs_lens_eqn_solver["search_window"] *= width_search_factor
-- 
2.43.0


From 2d2af49beff7cf66d926bc2b3872c1570ccbb763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:37 +0000
Subject: [PATCH 038/175] fix: search window of one point source instance is
 not written into the settings of the user

---
 lenstronomy/PointSource/point_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index db41af0..0eb1151 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -127,7 +127,7 @@ class PointSource(object):
                 )
         if kwargs_lens_eqn_solver is None:
             kwargs_lens_eqn_solver = {}
-        self._kwargs_lens_eqn_solver = kwargs_lens_eqn_solver
+        self._kwargs_lens_eqn_solver = copy.deepcopy(kwargs_lens_eqn_solver)
         self._magnification_limit = magnification_limit
         self._save_cache = save_cache
 
-- 
2.43.0


From d71c760e12dd5cfa9336e90add62783eb7e3a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:20 +0000
Subject: [PATCH 039/175] fix: normalising a kernel does not modify the kernel
 of the caller

---
 lenstronomy/Util/kernel_util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index 98c76d4..ef60239 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -128,8 +128,7 @@ def kernel_norm(kernel):
     :return: normalisation of the psf kernel
     """
     norm = np.sum(np.array(kernel))
-    kernel /= norm
-    return kernel
+    return kernel / norm
 
 
 @export
-- 
2.43.0


From 78ff19aaa07d75e3410dafd43853dd904aebcbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:20 +0000
Subject: [PATCH 040/175] fix: subgrid kernel of a kernel that is not
 normalised to one

---
 lenstronomy/Util/kernel_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index ef60239..e4d4291 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -151,7 +151,8 @@ def subgrid_kernel(kernel, subgrid_res, odd=False, num_iter=100):
     if subgrid_res == 1:
         return kernel
     norm_kernel = np.sum(kernel)
-    kernel_input = copy.deepcopy(kernel) / norm_kernel
+    kernel = kernel / norm_kernel
+    kernel_input = copy.deepcopy(kernel)
     nx, ny = np.shape(kernel)
     d_x = 1.0 / nx
     x_in = np.linspace(d_x / 2, 1 - d_x / 2, nx)
@@ -192,7 +193,7 @@ def subgrid_kernel(kernel, subgrid_res, odd=False, num_iter=100):
     # print(np.shape(kernel_subgrid))
     # whatever has not been matched is added to zeroth order (in squares of the undersampled PSF)
     if subgrid_res % 2 == 0:
-        return kernel_subgrid
+        return kernel_subgrid * norm_kernel
     kernel_pixel = util.averaging(kernel_subgrid, num_grid=nx_new, num_pix=nx)
     kernel_pixel = kernel_norm(kernel_pixel)
     delta_kernel = kernel_pixel - kernel_norm(kernel)
-- 
2.43.0


From 71c134c8686583019f14c288e3be4ec065a3c977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:20 +0000
Subject: [PATCH 041/175] fix: kernels of all sizes can be degraded by an odd
 factor

---
 lenstronomy/Util/kernel_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index e4d4291..5136319 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -440,7 +440,7 @@ def degrade_kernel(kernel_super, degrading_factor):
 def averaging_odd_kernel(kernel_super, degrading_factor):
     """"""
     n_kernel = len(kernel_super)
-    num_pix = int(round(n_kernel / degrading_factor))
+    num_pix = int(np.ceil(n_kernel / degrading_factor))
     if num_pix % 2 == 0:
         num_pix += 1
     n_high = num_pix * degrading_factor
-- 
2.43.0


From 98beda7a676ab1b602ccd3697a774eb2ee4bc773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:20 +0000
Subject: [PATCH 042/175] fix: initial supersampled PSF kernel stays odd-sized
 and normalised after other supersampling factors were requested

---
 lenstronomy/Data/psf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index 6602610..d139804 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -63,8 +63,7 @@ class PSF(object):
                 raise ValueError(
                     "kernel_point_source needs to be specified for PIXEL PSF type!"
                 )
-            # store the initial input PSF and supersampling factor
-            self._kernel_point_source_init = np.array(kernel_point_source)
+            # store the supersampling factor of the initial input PSF
             self._point_source_supersampling_factor_init = (
                 point_source_supersampling_factor
             )
@@ -78,6 +77,8 @@ class PSF(object):
                 kernel_point_source_ = copy.deepcopy(kernel_point_source)
             if kernel_point_source_normalisation is True:
                 kernel_point_source_ /= np.sum(kernel_point_source_)
+            # store the initial input PSF
+            self._kernel_point_source_init = kernel_point_source_
             if point_source_supersampling_factor > 1:
                 self._kernel_point_source_supersampled = kernel_point_source_
                 self._point_source_supersampling_factor = (
-- 
2.43.0


From b3953ef8ae888b99a3a3a4f2e3783b2ba635c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:20 +0000
Subject: [PATCH 043/175] fix: changing the pixel size of a Gaussian PSF
 updates all kernels

---
 lenstronomy/Data/psf.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index d139804..de23d29 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -246,10 +246,15 @@ class PSF(object):
         """
         self._pixel_size = delta_pix
         if self.psf_type == "GAUSSIAN":
-            try:
-                del self._kernel_point_source
-            except:
-                pass
+            for name in (
+                "_kernel_point_source",
+                "_kernel_pixel",
+                "_kernel_point_source_supersampled",
+            ):
+                if hasattr(self, name):
+                    delattr(self, name)
+            if not self.psf_variance_map_bool and hasattr(self, "_psf_variance_map"):
+                del self._psf_variance_map
 
     @property
     def psf_variance_map(self):
-- 
2.43.0


From 8d71ccbc3df05f653f25fdc675749b6cf2e87d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:17 +0000
Subject: [PATCH 044/175] fix: a shift of the coordinate system is kept when
 the alignment is updated

---
 lenstronomy/Data/coord_transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lenstronomy/Data/coord_transforms.py b/lenstronomy/Data/coord_transforms.py
index aa19cec..4d6507f 100644
--- a/lenstronomy/Data/coord_transforms.py
+++ b/lenstronomy/Data/coord_transforms.py
@@ -189,6 +189,9 @@ class Coordinates(object):
             ra_shift, dec_shift = x_shift, y_shift
         self._ra_at_xy_0 += ra_shift
         self._dec_at_xy_0 += dec_shift
+        # later updates of the alignment are relative to the shifted coordinate system
+        self._ra_at_xy_0_ref += ra_shift
+        self._dec_at_xy_0_ref += dec_shift
         self._x_at_radec_0, self._y_at_radec_0 = util.map_coord2pix(
             -self._ra_at_xy_0, -self._dec_at_xy_0, 0, 0, self._transform_angle2pix
         )
-- 
2.43.0


From 48efbb9d3e03588c824198881226d3edf36927b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:17 +0000
Subject: [PATCH 045/175] fix: pixel coordinates follow a shift of the
 coordinate system

---
 lenstronomy/Data/pixel_grid.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lenstronomy/Data/pixel_grid.py b/lenstronomy/Data/pixel_grid.py
index d36b7c2..9460f0b 100644
--- a/lenstronomy/Data/pixel_grid.py
+++ b/lenstronomy/Data/pixel_grid.py
@@ -53,6 +53,19 @@ class PixelGrid(Coordinates):
             self._x_grid, self._y_grid = self.coordinate_grid(self._nx, self._ny)
         return updated_bool
 
+    def shift_coordinate_system(self, x_shift, y_shift, pixel_unit=False):
+        """Shifts the coordinate system and updates the coordinates of the pixels.
+
+        :param x_shift: shift in x (or RA)
+        :param y_shift: shift in y (or DEC)
+        :param pixel_unit: bool, if True, units of pixels in input, otherwise RA/DEC
+        :return: None, updated coordinate system
+        """
+        Coordinates.shift_coordinate_system(
+            self, x_shift, y_shift, pixel_unit=pixel_unit
+        )
+        self._x_grid, self._y_grid = self.coordinate_grid(self._nx, self._ny)
+
     @property
     def num_pixel(self):
         """
-- 
2.43.0


From 4babb294b02bff8a26ddc53dce92aa76084a03fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:31 +0000
Subject: [PATCH 046/175] fix: data of a different shape along either axis are
 rejected

---
 lenstronomy/Data/imaging_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/imaging_data.py b/lenstronomy/Data/imaging_data.py
index 88a2ff3..c7491f3 100644
--- a/lenstronomy/Data/imaging_data.py
+++ b/lenstronomy/Data/imaging_data.py
@@ -142,7 +142,7 @@ class ImageData(PixelGrid, ImageNoise, AngularSensitivity):
         :return: None
         """
         ny, nx = np.shape(image_data)
-        if not self._nx == nx and not self._ny == ny:
+        if not (self._nx == nx and self._ny == ny):
             raise ValueError(
                 "shape of new data %s %s must equal old data %s %s!"
                 % (nx, ny, self._nx, self._ny)
-- 
2.43.0


From 21052546f291f33ac832f0be873f2b7d00a125c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:31 +0000
Subject: [PATCH 047/175] fix: shape check of the primary beam on non-square
 images

---
 lenstronomy/Data/imaging_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/imaging_data.py b/lenstronomy/Data/imaging_data.py
index c7491f3..32c1bdc 100644
--- a/lenstronomy/Data/imaging_data.py
+++ b/lenstronomy/Data/imaging_data.py
@@ -116,7 +116,7 @@ class ImageData(PixelGrid, ImageNoise, AngularSensitivity):
             flux_scaling=flux_scaling,
         )
         if antenna_primary_beam is not None:
-            pbx, pby = np.shape(antenna_primary_beam)
+            pby, pbx = np.shape(antenna_primary_beam)
             if (pbx, pby) != (nx, ny):
                 raise ValueError(
                     "The primary beam should have the same size with the image data!"
-- 
2.43.0


From 6b05e5698b70fbcc5d3cf14df143f54fd6dd9aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:53 +0000
Subject: [PATCH 048/175] fix: exposure map of the user is not modified

---
 lenstronomy/Data/image_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/image_noise.py b/lenstronomy/Data/image_noise.py
index a0ef6a8..3695766 100644
--- a/lenstronomy/Data/image_noise.py
+++ b/lenstronomy/Data/image_noise.py
@@ -42,7 +42,7 @@ class ImageNoise(object):
                 if exposure_time <= 10 ** (-10):
                     exposure_time = 10 ** (-10)
             else:
-                exposure_time[exposure_time <= 10 ** (-10)] = 10 ** (-10)
+                exposure_time = np.maximum(exposure_time, 10 ** (-10))
         self._exp_map = exposure_time
         self._background_rms = background_rms
         self._noise_map = noise_map
-- 
2.43.0


From 38c4bcbb629f46af1c93ebb08be99eda8a3c3fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:53 +0000
Subject: [PATCH 049/175] fix: distance modulus

---
 lenstronomy/Util/data_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/data_util.py b/lenstronomy/Util/data_util.py
index 77da0dd..758b9b8 100644
--- a/lenstronomy/Util/data_util.py
+++ b/lenstronomy/Util/data_util.py
@@ -80,7 +80,7 @@ def absolute2apparent_magnitude(absolute_magnitude, d_parsec):
     :param d_parsec: distance to object in units parsec
     :return: apparent magnitude
     """
-    m_apparent = 5.8 * (np.log10(d_parsec) - 1) + absolute_magnitude
+    m_apparent = 5 * (np.log10(d_parsec) - 1) + absolute_magnitude
     return m_apparent
 
 
-- 
2.43.0


From dd2906ec9c0389fb6fb86cdba79607b887c841e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:43 +0000
Subject: [PATCH 050/175] fix: evaluation mask in the adaptive grid

---
 lenstronomy/ImSim/Numerics/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index df0cfce..2294bc2 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -41,6 +41,8 @@ class AdaptiveGrid(Coordinates1D):
         self._x_grid, self._y_grid = self.coordinate_grid(nx, ny)
         if flux_evaluate_indexes is None:
             flux_evaluate_indexes = np.ones_like(self._x_grid, dtype=bool)
+        else:
+            flux_evaluate_indexes = np.ravel(flux_evaluate_indexes)
         supersampled_indexes1d = util.image2array(supersampling_indexes)
         self._high_res_indexes1d = (supersampled_indexes1d) & (flux_evaluate_indexes)
         self._low_res_indexes1d = (np.invert(supersampled_indexes1d)) & (
-- 
2.43.0


From cdf0f022fe7c3c88221dd228ebb4966a9abc2654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:43 +0000
Subject: [PATCH 051/175] fix: PSF variance map of several images with fixed
 amplitudes

---
 lenstronomy/ImSim/Numerics/point_source_rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/Numerics/point_source_rendering.py b/lenstronomy/ImSim/Numerics/point_source_rendering.py
index 49b37ab..6c259cf 100644
--- a/lenstronomy/ImSim/Numerics/point_source_rendering.py
+++ b/lenstronomy/ImSim/Numerics/point_source_rendering.py
@@ -90,7 +90,7 @@ class PointSourceRendering(object):
         variance_map = np.zeros_like(data)
         for i in range(len(x_pos)):
             if fix_psf_variance_map is True:
-                amp_estimated = amp
+                amp_estimated = amp[i]
             else:
                 amp_estimated = kernel_util.estimate_amp(
                     data, x_pos[i], y_pos[i], psf_kernel
-- 
2.43.0


From ac043324921b450b3260068ad042650782f06552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:43 +0000
Subject: [PATCH 052/175] fix: coordinates of the sub-frame of an evaluation
 mask

---
 lenstronomy/ImSim/Numerics/numerics_subframe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/Numerics/numerics_subframe.py b/lenstronomy/ImSim/Numerics/numerics_subframe.py
index 2d450ff..7650853 100644
--- a/lenstronomy/ImSim/Numerics/numerics_subframe.py
+++ b/lenstronomy/ImSim/Numerics/numerics_subframe.py
@@ -179,7 +179,7 @@ class NumericsSubFrame(PointSourceRendering):
             nx_sub = self._x_max_sub - self._x_min_sub + 1
             ny_sub = self._y_max_sub - self._y_min_sub + 1
             ra_at_xy_0_sub, dec_at_xy_0_sub = pixel_grid.map_pix2coord(
-                self._x_min_sub, self._y_min_sub
+                self._y_min_sub, self._x_min_sub
             )
             pixel_grid_sub = PixelGrid(
                 nx=nx_sub,
-- 
2.43.0


From 8576f83dfd992c8f1490aeb099e847b0cad5d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:43 +0000
Subject: [PATCH 053/175] fix: static convolution of images with different
 shapes

---
 lenstronomy/ImSim/Numerics/convolution.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/Numerics/convolution.py b/lenstronomy/ImSim/Numerics/convolution.py
index 1dc27ef..4349536 100644
--- a/lenstronomy/ImSim/Numerics/convolution.py
+++ b/lenstronomy/ImSim/Numerics/convolution.py
@@ -81,7 +81,12 @@ class PixelKernelConvolution(object):
         """
         in1 = image
         in1 = np.asarray(in1)
-        if self._pre_computed is False:
+        is_complex = np.iscomplexobj(in1) or np.iscomplexobj(self._kernel)
+        if (
+            self._pre_computed is False
+            or tuple(self._s1) != in1.shape
+            or self._complex_result != is_complex
+        ):
             (
                 self._s1,
                 self._s2,
@@ -90,7 +95,7 @@ class PixelKernelConvolution(object):
                 self._fshape,
                 self._fslice,
                 self._sp2,
-            ) = self._static_pre_compute(image)
+            ) = self._static_pre_compute(in1)
             self._pre_computed = True
         s1, s2, complex_result, shape, fshape, fslice, sp2 = (
             self._s1,
-- 
2.43.0


From c2251825bb63ee6f916c2cd489ed0aa9d247c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:43 +0000
Subject: [PATCH 054/175] fix: adaptive convolution with a PSF kernel smaller
 than the supersampled kernel size

---
 lenstronomy/ImSim/Numerics/adaptive_numerics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/ImSim/Numerics/adaptive_numerics.py b/lenstronomy/ImSim/Numerics/adaptive_numerics.py
index 0d4b878..0ee8f29 100644
--- a/lenstronomy/ImSim/Numerics/adaptive_numerics.py
+++ b/lenstronomy/ImSim/Numerics/adaptive_numerics.py
@@ -56,6 +56,7 @@ class AdaptiveConvolution(object):
         n_cut_super = supersampling_kernel_size * supersampling_factor
         if n_cut_super % 2 == 0:
             n_cut_super += 1
+        n_cut_super = min(n_cut_super, len(kernel_super))
         kernel_super_cut = image_util.cut_edges(kernel_super, n_cut_super)
         kernel_cut = kernel_util.degrade_kernel(
             kernel_super_cut, degrading_factor=supersampling_factor
-- 
2.43.0


From 1613da1c42270ed30fd3d4b14a271deb2c4ee3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:10 +0000
Subject: [PATCH 055/175] fix: evaluation mask on the supersampled grid

---
 lenstronomy/ImSim/Numerics/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index 2294bc2..6bd18a1 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -286,7 +286,7 @@ class RegularGrid(Coordinates1D):
         :return: 1d array of equivalent mask in subgrid resolution
         """
         idex_sub = np.repeat(idex_mask, subgrid_res, axis=0)
-        idex_sub = util.array2image(idex_sub, nx=nx, ny=ny * subgrid_res)
+        idex_sub = util.array2image(idex_sub, nx=nx * subgrid_res, ny=ny)
         idex_sub = np.repeat(idex_sub, subgrid_res, axis=0)
         idex_sub = util.image2array(idex_sub)
         return idex_sub
-- 
2.43.0


From 1d9cc9c206efbeb81893f14a65eb91d46241e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:02 +0000
Subject: [PATCH 056/175] fix: PSF variance map with one amplitude for all
 images

---
 lenstronomy/ImSim/Numerics/point_source_rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/Numerics/point_source_rendering.py b/lenstronomy/ImSim/Numerics/point_source_rendering.py
index 6c259cf..9c12534 100644
--- a/lenstronomy/ImSim/Numerics/point_source_rendering.py
+++ b/lenstronomy/ImSim/Numerics/point_source_rendering.py
@@ -90,7 +90,7 @@ class PointSourceRendering(object):
         variance_map = np.zeros_like(data)
         for i in range(len(x_pos)):
             if fix_psf_variance_map is True:
-                amp_estimated = amp[i]
+                amp_estimated = np.broadcast_to(amp, len(x_pos))[i]
             else:
                 amp_estimated = kernel_util.estimate_amp(
                     data, x_pos[i], y_pos[i], psf_kernel
-- 
2.43.0


From 468e3d83b8c73f4860acafe1ebadddbad8e4f154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:02 +0000
Subject: [PATCH 057/175] fix: SIS_TRUNCATED at the truncation radius and off
 the origin

Arrays left the potential at exactly r_trunc and 2 r_trunc at zero, and the Hessian took
the radial direction from the origin and not from the centre of the profile.
---
 lenstronomy/LensModel/Profiles/sis_truncate.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/sis_truncate.py b/lenstronomy/LensModel/Profiles/sis_truncate.py
index 9135f08..55dd469 100644
--- a/lenstronomy/LensModel/Profiles/sis_truncate.py
+++ b/lenstronomy/LensModel/Profiles/sis_truncate.py
@@ -64,12 +64,12 @@ class SIS_truncate(LensProfileBase):
         else:
             f_ = np.zeros_like(r)
             f_[r < r_trunc] = theta_E * r[r < r_trunc]
-            r_ = r[(r < 2 * r_trunc) & (r > r_trunc)]
-            f_[(r < 2 * r_trunc) & (r > r_trunc)] = (
+            r_ = r[(r < 2 * r_trunc) & (r >= r_trunc)]
+            f_[(r < 2 * r_trunc) & (r >= r_trunc)] = (
                 theta_E * r_trunc
                 + 1.0 / 2 * theta_E * (3 - r_ / r_trunc) * (r_ - r_trunc)
             )
-            f_[r > 2 * r_trunc] = 3.0 / 2 * theta_E * r_trunc
+            f_[r >= 2 * r_trunc] = 3.0 / 2 * theta_E * r_trunc
         return f_
 
     def derivatives(self, x, y, theta_E, r_trunc, center_x=0, center_y=0):
@@ -109,7 +109,7 @@ class SIS_truncate(LensProfileBase):
         y_shift = y - center_y
         dphi_dr = self._dphi_dr(x_shift, y_shift, theta_E, r_trunc)
         d2phi_dr2 = self._d2phi_dr2(x_shift, y_shift, theta_E, r_trunc)
-        dr_dx, dr_dy = self._dr_dx(x, y)
+        dr_dx, dr_dy = self._dr_dx(x_shift, y_shift)
         d2r_dx2, d2r_dy2, d2r_dxy = self._d2r_dx2(x_shift, y_shift)
         f_xx = d2r_dx2 * dphi_dr + dr_dx**2 * d2phi_dr2
         f_yy = d2r_dy2 * dphi_dr + dr_dy**2 * d2phi_dr2
@@ -165,8 +165,8 @@ class SIS_truncate(LensProfileBase):
         else:
             a = np.zeros_like(r)
             a[r < r_trunc] = 0
-            a[(r < 2 * r_trunc) & (r > r_trunc)] = -theta_E / r_trunc
-            a[r > 2 * r_trunc] = 0
+            a[(r < 2 * r_trunc) & (r >= r_trunc)] = -theta_E / r_trunc
+            a[r >= 2 * r_trunc] = 0
         return a
 
     def _dr_dx(self, x, y):
-- 
2.43.0


From 14861034cd22b8db2e10d44a9ac4b794bc8b9c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:18 +0000
Subject: [PATCH 058/175] fix: convergence of coreBURKERT at the core radius

The limit of the inner and outer expressions includes the term -2p.
---
 lenstronomy/LensModel/Profiles/coreBurkert.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/coreBurkert.py b/lenstronomy/LensModel/Profiles/coreBurkert.py
index 6cbb91b..fe2972d 100644
--- a/lenstronomy/LensModel/Profiles/coreBurkert.py
+++ b/lenstronomy/LensModel/Profiles/coreBurkert.py
@@ -395,8 +395,10 @@ class CoreBurkert(LensProfileBase):
 
             func = np.ones_like(x)
 
-            func[inds0] = self._u(x[inds0]) ** -1 * (
-                np.pi + 2 * p * np.arctanh(self._u(x[inds0]) ** -1)
+            func[inds0] = (
+                self._u(x[inds0]) ** -1
+                * (np.pi + 2 * p * np.arctanh(self._u(x[inds0]) ** -1))
+                - 2 * p
             )
 
             func[inds1] = self._u(x[inds1]) ** -1 * (
@@ -411,7 +413,10 @@ class CoreBurkert(LensProfileBase):
 
         else:
             if x * p == 1:
-                func = self._u(x) ** -1 * (np.pi + 2 * p * np.arctanh(self._u(x) ** -1))
+                func = (
+                    self._u(x) ** -1 * (np.pi + 2 * p * np.arctanh(self._u(x) ** -1))
+                    - 2 * p
+                )
             elif x * p < 1:
                 func = self._u(x) ** -1 * (
                     np.pi + 2 * p * np.arctanh(self._u(x) ** -1)
-- 
2.43.0


From 9b3995ecd5adb1d30a4e06e4715c741f93accb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:18 +0000
Subject: [PATCH 059/175] fix: deflection of CNFW at the core radius

The constant -1.38692 in the limit of X = b was not log(1/4) = -1.38629.
---
 lenstronomy/LensModel/Profiles/cnfw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/cnfw.py b/lenstronomy/LensModel/Profiles/cnfw.py
index a866882..d687fe6 100644
--- a/lenstronomy/LensModel/Profiles/cnfw.py
+++ b/lenstronomy/LensModel/Profiles/cnfw.py
@@ -355,7 +355,7 @@ class CNFW(LensProfileBase):
 
             output[inds1] = prefac * (
                 2 * (1 - 2 * b + b**3) * self._nfw_func(b)
-                + fac * (-1.38692 + np.log(b2))
+                + fac * np.log(0.25 * b2)
                 - b2 * np.log(b2)
             )
 
@@ -371,7 +371,7 @@ class CNFW(LensProfileBase):
             if np.absolute(X - b) <= c:
                 output = prefac * (
                     2 * (1 - 2 * b + b**3) * self._nfw_func(b)
-                    + fac * (-1.38692 + np.log(b2))
+                    + fac * np.log(0.25 * b2)
                     - b2 * np.log(b2)
                 )
             else:
-- 
2.43.0


From 3219bdd252f434f751409a4b4c476f393cd7bec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:18 +0000
Subject: [PATCH 060/175] fix: projected mass of the Hernquist profile at r =
 Rs (was NaN)

---
 lenstronomy/LensModel/Profiles/hernquist.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/hernquist.py b/lenstronomy/LensModel/Profiles/hernquist.py
index adc0f5e..f4310fa 100644
--- a/lenstronomy/LensModel/Profiles/hernquist.py
+++ b/lenstronomy/LensModel/Profiles/hernquist.py
@@ -140,8 +140,7 @@ class Hernquist(LensProfileBase):
         :param Rs: Hernquist radius
         :return: mass enclosed 2d projected radius
         """
-        X = r / Rs
-        alpha_r = 2 * sigma0 * Rs * X * (1 - self._F(X)) / (X**2 - 1)
+        alpha_r, _ = self.derivatives(r, 0, sigma0, Rs)
         mass_2d = alpha_r * r * np.pi
         return mass_2d
 
-- 
2.43.0


From dcc3dc2dbd77b655fd66261ea6fdacefdc0e7a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:47 +0000
Subject: [PATCH 061/175] fix: deflection of CURVED_ARC_CONST beyond the half
 circle on the negative side

Arrays gave NaN where single coordinates give zero.
---
 lenstronomy/LensModel/Profiles/curved_arc_const.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/curved_arc_const.py b/lenstronomy/LensModel/Profiles/curved_arc_const.py
index 3a22d3e..d0aee8e 100644
--- a/lenstronomy/LensModel/Profiles/curved_arc_const.py
+++ b/lenstronomy/LensModel/Profiles/curved_arc_const.py
@@ -238,10 +238,10 @@ class CurvedArcConst(LensProfileBase):
 
         else:
             f__x, f__y = np.zeros_like(x__), np.zeros_like(y__)
-            _y__ = y__[y__ <= r]
+            _y__ = y__[np.abs(y__) <= r]
             _f__x, _f__y = self._deflection(_y__, r, tangential_stretch)
-            f__x[y__ <= r] = _f__x
-            f__y[y__ <= r] = _f__y
+            f__x[np.abs(y__) <= r] = _f__x
+            f__y[np.abs(y__) <= r] = _f__y
 
         # rotate back
         f_x, f_y = util.rotate(f__x, f__y, -direction)
-- 
2.43.0


From 44ebf7caf98a5ef63f305caa1a5b26bcc68d8c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:44 +0000
Subject: [PATCH 062/175] fix: astrometric shifts with a selected point source
 model

The shifts are listed over the images of all point source models; for a single model
(also in the PSF error map) the shifts of the first images were taken, or an error raised.
---
 lenstronomy/ImSim/image_model.py | 39 ++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index eaf0213..7ed1607 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -575,7 +575,12 @@ class ImageModel(object):
             kwargs_ps, kwargs_lens=kwargs_lens, k=k
         )
         ra_pos, dec_pos = self._displace_astrometry(
-            ra_pos, dec_pos, kwargs_special=kwargs_special
+            ra_pos,
+            dec_pos,
+            kwargs_special=kwargs_special,
+            num_before=self._num_displaced_before(
+                k, kwargs_ps, kwargs_lens, kwargs_special
+            ),
         )
 
         # Scale point source amplitude (amp) by the primary beam response, if applicable.
@@ -829,7 +834,12 @@ class ImageModel(object):
                     )
                     if len(ra_pos) > 0:
                         ra_pos, dec_pos = self._displace_astrometry(
-                            ra_pos, dec_pos, kwargs_special=kwargs_special
+                            ra_pos,
+                            dec_pos,
+                            kwargs_special=kwargs_special,
+                            num_before=self._num_displaced_before(
+                                k, kwargs_ps, kwargs_lens, kwargs_special
+                            ),
                         )
                         error_map += self.ImageNumerics.psf_variance_map(
                             ra_pos,
@@ -840,8 +850,25 @@ class ImageModel(object):
                         )
         return error_map
 
+    def _num_displaced_before(self, k, kwargs_ps, kwargs_lens, kwargs_special=None):
+        """Number of image positions of the point source models preceding the k'th one,
+        i.e. the index of the first entry of 'delta_x_image' of the k'th model.
+
+        :param k: index of the point source model or None for all models
+        :param kwargs_ps: point source keyword arguments
+        :param kwargs_lens: lens model keyword arguments
+        :param kwargs_special: special parameter keyword arguments
+        :return: number of image positions
+        """
+        if k is None or kwargs_special is None or "delta_x_image" not in kwargs_special:
+            return 0
+        return sum(
+            len(self.PointSource.point_source_list(kwargs_ps, kwargs_lens, k=i)[0])
+            for i in range(k)
+        )
+
     @staticmethod
-    def _displace_astrometry(x_pos, y_pos, kwargs_special=None):
+    def _displace_astrometry(x_pos, y_pos, kwargs_special=None, num_before=0):
         """Displaces point sources by shifts specified in kwargs_special.
 
         :param x_pos: list of point source positions according to point source model
@@ -850,13 +877,15 @@ class ImageModel(object):
             list
         :param kwargs_special: keyword arguments, can contain 'delta_x_image' and
             'delta_y_image' The list is defined in order of the image positions
+        :param num_before: number of image positions (of preceding point source models)
+            not part of x_pos, y_pos
         :return: shifted image positions in same format as input
         """
         if kwargs_special is not None:
             if "delta_x_image" in kwargs_special:
                 delta_x, delta_y = (
-                    kwargs_special["delta_x_image"],
-                    kwargs_special["delta_y_image"],
+                    kwargs_special["delta_x_image"][num_before:][: len(x_pos)],
+                    kwargs_special["delta_y_image"][num_before:][: len(y_pos)],
                 )
                 delta_x_new = np.zeros(len(x_pos))
                 delta_x_new[0 : len(delta_x)] = delta_x[:]
-- 
2.43.0


From 38b0b5a9b013c2555566e74c57fefcd1f8a726c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:44 +0000
Subject: [PATCH 063/175] fix: update_data of the ImageModel takes the
 coordinates, flux scaling and primary beam of the new data

---
 lenstronomy/ImSim/image_model.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index 7ed1607..d63a26b 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -748,7 +748,19 @@ class ImageModel(object):
         :return: no return. Class is updated.
         """
         self.Data = data_class
-        self.ImageNumerics._PixelGrid = data_class
+        if hasattr(self.Data, "flux_scaling"):
+            self._flux_scaling = self.Data.flux_scaling
+        else:
+            self._flux_scaling = 1
+        self._pb = getattr(self.Data, "primary_beam", None)
+        if self._pb is not None:
+            self._pb_1d = util.image2array(self._pb)
+        else:
+            self._pb_1d = None
+        self.PSF.set_pixel_size(self.Data.pixel_width)
+        self.ImageNumerics = NumericsSubFrame(
+            pixel_grid=self.Data, psf=self.PSF, **self._kwargs_numerics
+        )
 
     @property
     def num_data_evaluate(self):
-- 
2.43.0


From 9874c1da08c414e1a3403dd3daaff0b56ae0a0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:44 +0000
Subject: [PATCH 064/175] fix: extinction without special parameters

---
 lenstronomy/ImSim/differential_extinction.py | 4 +++-
 lenstronomy/ImSim/image_model.py             | 1 -
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/differential_extinction.py b/lenstronomy/ImSim/differential_extinction.py
index ccd03a1..b2b351e 100644
--- a/lenstronomy/ImSim/differential_extinction.py
+++ b/lenstronomy/ImSim/differential_extinction.py
@@ -53,7 +53,9 @@ class DifferentialExtinction(object):
         if self._compute_bool is False or kwargs_extinction is None:
             return 1
         tau = self._profile.surface_brightness(x, y, kwargs_list=kwargs_extinction)
-        tau0_list = kwargs_special.get("tau0_list", None)
+        tau0_list = None
+        if kwargs_special is not None:
+            tau0_list = kwargs_special.get("tau0_list", None)
         if tau0_list is not None:
             tau0 = tau0_list[self._tau0_index]
         else:
diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index d63a26b..4c77faa 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -681,7 +681,6 @@ class ImageModel(object):
             kwargs_extinction=kwargs_extinction,
             kwargs_special=kwargs_special,
         )
-        print(extinction, "test extinction")
         extinction_array = np.ones_like(ra_grid) * extinction
         extinction = (
             self.ImageNumerics.re_size_convolve(extinction_array, unconvolved=True)
-- 
2.43.0


From 5e62a4acc391ccf5d6d321f1a5fe9cd7725fb5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:18 +0000
Subject: [PATCH 065/175] fix: linear response of data with a primary beam
 matches the image

---
 lenstronomy/ImSim/image_linear_solve.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/image_linear_solve.py b/lenstronomy/ImSim/image_linear_solve.py
index 1c51a34..3835d74 100644
--- a/lenstronomy/ImSim/image_linear_solve.py
+++ b/lenstronomy/ImSim/image_linear_solve.py
@@ -394,6 +394,9 @@ class ImageLinearFit(ImageModel):
         # response of lensed source profile
         for i in range(0, n_source):
             image = source_light_response[i]
+            # multiply with primary beam
+            if self._pb is not None:
+                image *= self._pb_1d
             image *= extinction
             image = self.ImageNumerics.re_size_convolve(image, unconvolved=unconvolved)
             A[n, :] = np.nan_to_num(self.image2array_masked(image), copy=False)
@@ -401,13 +404,22 @@ class ImageLinearFit(ImageModel):
         # response of deflector light profile (or any other un-lensed extended components)
         for i in range(0, n_lens_light):
             image = lens_light_response[i]
+            # multiply with primary beam
+            if self._pb is not None:
+                image *= self._pb_1d
             image = self.ImageNumerics.re_size_convolve(image, unconvolved=unconvolved)
             A[n, :] = np.nan_to_num(self.image2array_masked(image), copy=False)
             n += 1
         # response of point sources
         for i in range(0, n_points):
+            amp_i = amp[i]
+            # apply primary beam values to the amplitudes of the point sources
+            if self._pb is not None:
+                amp_i = amp_i * self._point_source_primary_beam_amp_normalization(
+                    ra_pos[i], dec_pos[i]
+                )
             image = self.ImageNumerics.point_source_rendering(
-                ra_pos[i], dec_pos[i], amp[i]
+                ra_pos[i], dec_pos[i], amp_i
             )
             A[n, :] = np.nan_to_num(self.image2array_masked(image), copy=False)
             n += 1
-- 
2.43.0


From 06594e7880761b12e01e0a3679afd4686be39294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:18 +0000
Subject: [PATCH 066/175] fix: interferometric linear response uses the current
 alignment of the frame

---
 lenstronomy/ImSim/image_linear_solve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lenstronomy/ImSim/image_linear_solve.py b/lenstronomy/ImSim/image_linear_solve.py
index 3835d74..54eb55a 100644
--- a/lenstronomy/ImSim/image_linear_solve.py
+++ b/lenstronomy/ImSim/image_linear_solve.py
@@ -659,6 +659,9 @@ class ImageLinearFit(ImageModel):
         :param kwargs_special: list of special keyword arguments
         :return: response matrix (m x n)
         """
+        self.update_pixel_grid_coordinates(
+            kwargs_special=kwargs_special, model_index=self.image_index
+        )
         x_grid, y_grid = self.ImageNumerics.coordinates_evaluate
 
         source_light_response, n_source = self.source_mapping.image_flux_split(
-- 
2.43.0


From 28b5117a64b8b8ec356627ea99c9468103ffeb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:10 +0000
Subject: [PATCH 067/175] fix: astrometric shifts of point sources with
 zero-amplitude images

---
 lenstronomy/ImSim/image_model.py        | 13 +++++++++++--
 lenstronomy/PointSource/point_source.py |  8 ++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index 4c77faa..93a878c 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -571,8 +571,13 @@ class ImageModel(object):
         point_source_image = np.zeros((self.Data.num_pixel_axes))
         if self.PointSource is None:
             return point_source_image
+        # the shifts are listed in order of all images, including those of zero amplitude
         ra_pos, dec_pos, amp = self.PointSource.point_source_list(
-            kwargs_ps, kwargs_lens=kwargs_lens, k=k
+            kwargs_ps,
+            kwargs_lens=kwargs_lens,
+            k=k,
+            remove_zero_amp=kwargs_special is None
+            or "delta_x_image" not in kwargs_special,
         )
         ra_pos, dec_pos = self._displace_astrometry(
             ra_pos,
@@ -874,7 +879,11 @@ class ImageModel(object):
         if k is None or kwargs_special is None or "delta_x_image" not in kwargs_special:
             return 0
         return sum(
-            len(self.PointSource.point_source_list(kwargs_ps, kwargs_lens, k=i)[0])
+            len(
+                self.PointSource.point_source_list(
+                    kwargs_ps, kwargs_lens, k=i, with_amp=False
+                )[0]
+            )
             for i in range(k)
         )
 
diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 0eb1151..67db078 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -302,7 +302,9 @@ class PointSource(object):
                 y_image_list.append(y_image)
         return x_image_list, y_image_list
 
-    def point_source_list(self, kwargs_ps, kwargs_lens, k=None, with_amp=True):
+    def point_source_list(
+        self, kwargs_ps, kwargs_lens, k=None, with_amp=True, remove_zero_amp=True
+    ):
         """Returns the coordinates and amplitudes of all point sources in a single
         array.
 
@@ -312,6 +314,8 @@ class PointSource(object):
             models in the return
         :param with_amp: bool, if False, ignores the amplitude parameters in the return
             and instead provides ones for each point source image
+        :param remove_zero_amp: bool, if True, images with zero amplitude are not part
+            of the return (only applies for with_amp=True)
         :return: ra_array, dec_array, amp_array
         """
         # here we save the cache of the individual models but do not overwrite the class boolean variable to do so
@@ -330,7 +334,7 @@ class PointSource(object):
         for i, ra in enumerate(ra_list):
             for j in range(len(ra)):
                 # Remove images with zero amplitude so that they do not have to be rendered.
-                if with_amp is True and amp_list[i][j] == 0:
+                if with_amp is True and remove_zero_amp and amp_list[i][j] == 0:
                     continue
 
                 ra_array.append(ra_list[i][j])
-- 
2.43.0


From a984b21fde74ba13b60f4b559c5cd0e3e82163fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:45 +0000
Subject: [PATCH 068/175] fix: all sources at one redshift in front of the
 source redshift of the multi-plane lens model

---
 lenstronomy/ImSim/image2source_mapping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/image2source_mapping.py b/lenstronomy/ImSim/image2source_mapping.py
index 2cb55e3..980673d 100644
--- a/lenstronomy/ImSim/image2source_mapping.py
+++ b/lenstronomy/ImSim/image2source_mapping.py
@@ -87,8 +87,9 @@ class Image2SourceMapping(object):
                         "the one specified in the lens model."
                     )
 
-            # turn off multi source plane if all sources are at the same redshift
-            if len(list(set(self._source_redshift_list))) == 1:
+            # turn off multi source plane if all sources are at the source redshift of
+            # the lens model
+            if set(self._source_redshift_list) == {self._lens_model.z_source}:
                 self._multi_source_plane = False
                 self._sorted_source_redshift_index = [0]
             else:
-- 
2.43.0


From f2e0c9c657b6801e593a29515e90c247ab2545b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:45 +0000
Subject: [PATCH 069/175] fix: selection of source components in multiple
 source planes

---
 lenstronomy/ImSim/image2source_mapping.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/image2source_mapping.py b/lenstronomy/ImSim/image2source_mapping.py
index 980673d..9f1b758 100644
--- a/lenstronomy/ImSim/image2source_mapping.py
+++ b/lenstronomy/ImSim/image2source_mapping.py
@@ -2,6 +2,7 @@ import numpy as np
 from lenstronomy.Cosmo.background import Background
 from lenstronomy.ImSim.multiplane_organizer import MultiPlaneOrganizer
 from lenstronomy.Util.cosmo_util import get_astropy_cosmology
+from lenstronomy.Util.util import convert_bool_list
 
 __all__ = ["Image2SourceMapping"]
 
@@ -264,13 +265,14 @@ class Image2SourceMapping(object):
             )
         else:
             flux = np.zeros_like(x)
+            bool_list = convert_bool_list(n=len(self._light_model.func_list), k=k)
             if self._multi_lens_plane is False:
                 x_alpha, y_alpha = self._lens_model.alpha(x, y, kwargs_lens)
                 for i in range(len(self._deflection_scaling_list)):
                     scale_factor = self._deflection_scaling_list[i]
                     x_source = x - x_alpha * scale_factor
                     y_source = y - y_alpha * scale_factor
-                    if k is None or k == i:
+                    if bool_list[i]:
                         flux += self._light_model.surface_brightness(
                             x_source, y_source, kwargs_source, k=i
                         )
@@ -302,7 +304,7 @@ class Image2SourceMapping(object):
                             T_ij_end=T_ij_end,
                         )
 
-                    if k is None or k == i:
+                    if bool_list[index_source]:
                         flux += self._light_model.surface_brightness(
                             x_source, y_source, kwargs_source, k=index_source
                         )
-- 
2.43.0


From 4a96dc3f05fdf79faff0c74130b731cdba53aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:45 +0000
Subject: [PATCH 070/175] fix: mapping of a single position to the source plane
 uses the sampled distance ratios

---
 lenstronomy/ImSim/image2source_mapping.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lenstronomy/ImSim/image2source_mapping.py b/lenstronomy/ImSim/image2source_mapping.py
index 9f1b758..c373edc 100644
--- a/lenstronomy/ImSim/image2source_mapping.py
+++ b/lenstronomy/ImSim/image2source_mapping.py
@@ -204,6 +204,13 @@ class Image2SourceMapping(object):
                 y_source = y - y_alpha * scale_factor
             else:
                 z_stop = self._source_redshift_list[index_source]
+                T_ij_start, T_ij_end = None, None
+                if self._distance_ratio_sampling:
+                    T_ij_start, T_ij_end = (
+                        self.multi_plane_organizer._transverse_distance_start_stop(
+                            0, z_stop, kwargs_special
+                        )
+                    )
 
                 x_source = np.zeros_like(x)
                 y_source = np.zeros_like(y)
@@ -221,6 +228,8 @@ class Image2SourceMapping(object):
                     z_stop,
                     kwargs_lens,
                     include_z_start=False,
+                    T_ij_start=T_ij_start,
+                    T_ij_end=T_ij_end,
                 )
 
         return x_source, y_source
-- 
2.43.0


From 76c0a584f17aa884a5b1a036f0b68a7d5e507552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:13 +0000
Subject: [PATCH 071/175] fix: selection of the models of a band includes the
 profile settings

---
 lenstronomy/Util/class_creator.py | 45 +++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/lenstronomy/Util/class_creator.py b/lenstronomy/Util/class_creator.py
index 6ace033..66d04ce 100644
--- a/lenstronomy/Util/class_creator.py
+++ b/lenstronomy/Util/class_creator.py
@@ -144,7 +144,11 @@ def create_class_instances(
         lens_model_list_i = lens_model_list
         lens_redshift_list_i = lens_redshift_list
         observed_convention_index_i = observed_convention_index
+        lens_profile_kwargs_list_i = lens_profile_kwargs_list
     else:
+        lens_profile_kwargs_list_i = _select_list(
+            lens_profile_kwargs_list, index_lens_model_list[band_index]
+        )
         lens_model_list_i = [
             lens_model_list[k] for k in index_lens_model_list[band_index]
         ]
@@ -176,7 +180,7 @@ def create_class_instances(
         cosmology_sampling=cosmology_sampling,
         cosmology_model=cosmology_model,
         observed_convention_index=observed_convention_index_i,
-        profile_kwargs_list=lens_profile_kwargs_list,
+        profile_kwargs_list=lens_profile_kwargs_list_i,
         decouple_multi_plane=decouple_multi_plane,
         kwargs_multiplane_model=kwargs_multiplane_model,
     )
@@ -187,11 +191,11 @@ def create_class_instances(
             z_lens=z_lens,
             z_source=z_source,
             z_source_convention=z_source_convention,
-            lens_redshift_list=lens_redshift_list,
+            lens_redshift_list=lens_redshift_list_i,
             multi_plane=multi_plane,
             cosmo=cosmo,
-            observed_convention_index=observed_convention_index,
-            profile_kwargs_list=lens_profile_kwargs_list,
+            observed_convention_index=observed_convention_index_i,
+            profile_kwargs_list=lens_profile_kwargs_list_i,
             decouple_multi_plane=decouple_multi_plane,
             kwargs_multiplane_model=kwargs_multiplane_model_point_source,
         )
@@ -202,7 +206,11 @@ def create_class_instances(
         source_light_model_list_i = source_light_model_list
         source_deflection_scaling_list_i = source_deflection_scaling_list
         source_redshift_list_i = source_redshift_list
+        source_light_profile_kwargs_list_i = source_light_profile_kwargs_list
     else:
+        source_light_profile_kwargs_list_i = _select_list(
+            source_light_profile_kwargs_list, index_source_light_model_list[band_index]
+        )
         source_light_model_list_i = [
             source_light_model_list[k]
             for k in index_source_light_model_list[band_index]
@@ -225,18 +233,22 @@ def create_class_instances(
         light_model_list=source_light_model_list_i,
         deflection_scaling_list=source_deflection_scaling_list_i,
         source_redshift_list=source_redshift_list_i,
-        profile_kwargs_list=source_light_profile_kwargs_list,
+        profile_kwargs_list=source_light_profile_kwargs_list_i,
     )
 
     if index_lens_light_model_list is None or all_models is True:
         lens_light_model_list_i = lens_light_model_list
+        lens_light_profile_kwargs_list_i = lens_light_profile_kwargs_list
     else:
+        lens_light_profile_kwargs_list_i = _select_list(
+            lens_light_profile_kwargs_list, index_lens_light_model_list[band_index]
+        )
         lens_light_model_list_i = [
             lens_light_model_list[k] for k in index_lens_light_model_list[band_index]
         ]
     lens_light_model_class = LightModel(
         light_model_list=lens_light_model_list_i,
-        profile_kwargs_list=lens_light_profile_kwargs_list,
+        profile_kwargs_list=lens_light_profile_kwargs_list_i,
     )
 
     point_source_model_list_i = point_source_model_list
@@ -291,16 +303,21 @@ def create_class_instances(
         tau0_index = 0
     else:
         tau0_index = tau0_index_list[band_index]
-    if index_optical_depth_model_list is not None:
+    if index_optical_depth_model_list is not None and not all_models:
+        optical_depth_profile_kwargs_list_i = _select_list(
+            optical_depth_profile_kwargs_list,
+            index_optical_depth_model_list[band_index],
+        )
         optical_depth_model_list_i = [
             optical_depth_model_list[k]
             for k in index_optical_depth_model_list[band_index]
         ]
     else:
         optical_depth_model_list_i = optical_depth_model_list
+        optical_depth_profile_kwargs_list_i = optical_depth_profile_kwargs_list
     extinction_class = DifferentialExtinction(
         optical_depth_model=optical_depth_model_list_i,
-        profile_kwargs_list=optical_depth_profile_kwargs_list,
+        profile_kwargs_list=optical_depth_profile_kwargs_list_i,
         tau0_index=tau0_index,
     )
     return (
@@ -312,6 +329,18 @@ def create_class_instances(
     )
 
 
+def _select_list(item_list, index_list):
+    """Selects the entries of a list that belong to the models of a band.
+
+    :param item_list: list with one entry per model, or None
+    :param index_list: indexes of the models of the band
+    :return: list of the entries of the models of the band, or None
+    """
+    if item_list is None:
+        return None
+    return [item_list[k] for k in index_list]
+
+
 @export
 def create_image_model(
     kwargs_data, kwargs_psf, kwargs_numerics, kwargs_model, image_likelihood_mask=None
-- 
2.43.0


From 3fd287437c8e3935398928e5b2849e7c2685335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:13 +0000
Subject: [PATCH 072/175] fix: tracer_type of the model settings is used by the
 tracer model

---
 lenstronomy/Util/class_creator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/Util/class_creator.py b/lenstronomy/Util/class_creator.py
index 66d04ce..3b15f2e 100644
--- a/lenstronomy/Util/class_creator.py
+++ b/lenstronomy/Util/class_creator.py
@@ -467,6 +467,7 @@ def create_tracer_model(tracer_data, kwargs_model, tracer_likelihood_mask=None):
         light_model_list=kwargs_model.get("tracer_source_model_list", [])
     )
     tracer_partition = kwargs_model.get("tracer_partition", None)
+    tracer_type = kwargs_model.get("tracer_type", "LINEAR")
     kwargs_data, kwargs_psf, kwargs_numerics = tracer_data
     (
         lens_model_class,
@@ -491,5 +492,6 @@ def create_tracer_model(tracer_data, kwargs_model, tracer_likelihood_mask=None):
         psf_error_map_bool_list=None,
         kwargs_pixelbased=None,
         tracer_partition=tracer_partition,
+        tracer_type=tracer_type,
     )
     return tracer_model
-- 
2.43.0


From fc4f6ba122c6deb769e0671ec11c3646ddd65d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:28 +0000
Subject: [PATCH 073/175] fix: index lists of the bands explicitly set to None

---
 .../MultiBand/single_band_multi_model.py      | 31 +++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/lenstronomy/ImSim/MultiBand/single_band_multi_model.py b/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
index 746f001..138e802 100644
--- a/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
+++ b/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
@@ -62,27 +62,26 @@ class SingleBandMultiModel(ImageLinearFit, ImageModel):
         data_i = ImageData(**kwargs_data)
         psf_i = PSF(**kwargs_psf)
 
-        index_lens_model_list = kwargs_model.get(
-            "index_lens_model_list", [None for _ in range(len(multi_band_list))]
+        index_lens_model_list = kwargs_model.get("index_lens_model_list", None)
+        self._index_lens_model = (
+            None if index_lens_model_list is None else index_lens_model_list[band_index]
         )
-        self._index_lens_model = index_lens_model_list[band_index]
-        index_source_list = kwargs_model.get(
-            "index_source_light_model_list", [None for _ in range(len(multi_band_list))]
+        index_source_light_model_list = kwargs_model.get("index_source_light_model_list", None)
+        self._index_source = (
+            None if index_source_light_model_list is None else index_source_light_model_list[band_index]
         )
-        self._index_source = index_source_list[band_index]
-        index_lens_light_list = kwargs_model.get(
-            "index_lens_light_model_list", [None for _ in range(len(multi_band_list))]
+        index_lens_light_model_list = kwargs_model.get("index_lens_light_model_list", None)
+        self._index_lens_light = (
+            None if index_lens_light_model_list is None else index_lens_light_model_list[band_index]
         )
-        self._index_lens_light = index_lens_light_list[band_index]
-        index_point_source_list = kwargs_model.get(
-            "index_point_source_model_list", [None for _ in range(len(multi_band_list))]
+        index_point_source_model_list = kwargs_model.get("index_point_source_model_list", None)
+        self._index_point_source = (
+            None if index_point_source_model_list is None else index_point_source_model_list[band_index]
         )
-        self._index_point_source = index_point_source_list[band_index]
-        index_optical_depth = kwargs_model.get(
-            "index_optical_depth_model_list",
-            [None for _ in range(len(multi_band_list))],
+        index_optical_depth_model_list = kwargs_model.get("index_optical_depth_model_list", None)
+        self._index_optical_depth = (
+            None if index_optical_depth_model_list is None else index_optical_depth_model_list[band_index]
         )
-        self._index_optical_depth = index_optical_depth[band_index]
         self.linear_solver = linear_solver
 
         if linear_solver:
-- 
2.43.0


From c9a053a5839d980e7e8427fad8b4588cef4e6159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:28 +0000
Subject: [PATCH 074/175] fix: reduced residuals of multiple bands when not all
 bands are computed

---
 lenstronomy/ImSim/MultiBand/multi_data_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lenstronomy/ImSim/MultiBand/multi_data_base.py b/lenstronomy/ImSim/MultiBand/multi_data_base.py
index ecdd25e..3db2989 100644
--- a/lenstronomy/ImSim/MultiBand/multi_data_base.py
+++ b/lenstronomy/ImSim/MultiBand/multi_data_base.py
@@ -81,9 +81,13 @@ class MultiDataBase(object):
         residual_list = []
         if error_map_list is None:
             error_map_list = np.zeros(self.num_bands)
+        # lists may contain entries for all bands or for the computed bands only
+        all_bands = len(model_list) == self._num_bands
         index = 0
         for i in range(self._num_bands):
             if self._compute_bool[i] is True:
+                if all_bands:
+                    index = i
                 residual_list.append(
                     self._image_model_list[i].reduced_residuals(
                         model_list[index], error_map=error_map_list[index]
-- 
2.43.0


From 25119cde704eeb4808b8cc3653b96118348df340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:28 +0000
Subject: [PATCH 075/175] fix: joint linear solution uses the error map of the
 special parameters

---
 lenstronomy/ImSim/MultiBand/joint_linear.py                 | 4 +++-
 lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index 3573b02..870126d 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -71,7 +71,9 @@ class JointLinear(MultiLinear):
             kwargs_extinction,
             kwargs_special,
         )
-        C_D_response, model_error_list = self.error_response(kwargs_lens, kwargs_ps)
+        C_D_response, model_error_list = self.error_response(
+            kwargs_lens, kwargs_ps, kwargs_special=kwargs_special
+        )
         d = self.data_response
         param, cov_param, wls_model = de_lens.get_param_WLS(
             A.T, 1 / C_D_response, d, inv_bool=inv_bool
diff --git a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
index 96a52dc..43cf3c8 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
@@ -102,7 +102,9 @@ class JointLinear_VaryBG(MultiLinear):
             kwargs_extinction,
             kwargs_special,
         )
-        C_D_response, model_error_list = self.error_response(kwargs_lens, kwargs_ps)
+        C_D_response, model_error_list = self.error_response(
+            kwargs_lens, kwargs_ps, kwargs_special=kwargs_special
+        )
         d = self.data_response
         param, cov_param, wls_model = de_lens.get_param_WLS(
             A.T, 1 / C_D_response, d, inv_bool=inv_bool
-- 
2.43.0


From f505977be01a84d919c85939578efb8b1d7502d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:50 +0000
Subject: [PATCH 076/175] fix: positive flux condition of joint linear fits
 tests the solved amplitudes

---
 lenstronomy/ImSim/MultiBand/joint_linear.py    | 18 +++++++++++++++---
 .../MultiBand/joint_linear_vary_background.py  | 18 +++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index 870126d..278ba59 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -219,9 +219,21 @@ class JointLinear(MultiLinear):
         if cov_matrix is not None and source_marg:
             marg_const = de_lens.marginalization_new(cov_matrix, d_prior=linear_prior)
             logL += marg_const
-        if check_positive_flux is True and self._num_bands > 0:
-            bool_ = self._image_model_list[0].check_positive_flux(
-                kwargs_source, kwargs_lens_light, kwargs_ps
+        if check_positive_flux is True and True in self._compute_bool:
+            # the amplitudes are shared, the first computed band includes all of them
+            band_index = self._compute_bool.index(True)
+            _, kwargs_source_i, kwargs_lens_light_i, kwargs_ps_i = (
+                self.update_linear_kwargs(
+                    param,
+                    band_index,
+                    kwargs_lens,
+                    kwargs_source,
+                    kwargs_lens_light,
+                    kwargs_ps,
+                )
+            )
+            bool_ = self._image_model_list[band_index].check_positive_flux(
+                kwargs_source_i, kwargs_lens_light_i, kwargs_ps_i
             )
             if bool_ is False:
                 logL -= 10**5
diff --git a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
index 43cf3c8..7604f68 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
@@ -256,9 +256,21 @@ class JointLinear_VaryBG(MultiLinear):
         if cov_matrix is not None and source_marg:
             marg_const = de_lens.marginalization_new(cov_matrix, d_prior=linear_prior)
             logL += marg_const
-        if check_positive_flux is True and self._num_bands > 0:
-            bool_ = self._image_model_list[0].check_positive_flux(
-                kwargs_source, kwargs_lens_light, kwargs_ps
+        if check_positive_flux is True and True in self._compute_bool:
+            # the amplitudes are shared, the first computed band includes all of them
+            band_index = self._compute_bool.index(True)
+            _, kwargs_source_i, kwargs_lens_light_i, kwargs_ps_i = (
+                self.update_linear_kwargs(
+                    param,
+                    band_index,
+                    kwargs_lens,
+                    kwargs_source,
+                    kwargs_lens_light,
+                    kwargs_ps,
+                )
+            )
+            bool_ = self._image_model_list[band_index].check_positive_flux(
+                kwargs_source_i, kwargs_lens_light_i, kwargs_ps_i
             )
             if bool_ is False:
                 logL -= 10**5
-- 
2.43.0


From ee14ccf4bd53708781b55dcb0bfdb41c4083c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:50 +0000
Subject: [PATCH 077/175] fix: number of linear parameters of joint linear fits

---
 lenstronomy/ImSim/MultiBand/joint_linear.py   | 18 ++++++++++++++++++
 .../MultiBand/joint_linear_vary_background.py | 19 +++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index 278ba59..48311d5 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -239,6 +239,24 @@ class JointLinear(MultiLinear):
                 logL -= 10**5
         return logL, param
 
+    def num_param_linear(
+        self, kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+    ):
+        """Number of linear parameters, shared by all computed bands.
+
+        :param kwargs_lens: list of keyword arguments of the lens models
+        :param kwargs_source: list of keyword arguments of the source light models
+        :param kwargs_lens_light: list of keyword arguments of the lens light models
+        :param kwargs_ps: list of keyword arguments of the point source models
+        :return: number of linear parameters of the joint fit
+        """
+        for i in range(self._num_bands):
+            if self._compute_bool[i] is True:
+                return self._image_model_list[i].num_param_linear(
+                    kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+                )
+        return 0
+
     def update_linear_kwargs(
         self,
         param,
diff --git a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
index 7604f68..02d4c62 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
@@ -276,6 +276,25 @@ class JointLinear_VaryBG(MultiLinear):
                 logL -= 10**5
         return logL, param
 
+    def num_param_linear(
+        self, kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+    ):
+        """Number of linear parameters, shared by all computed bands, and one
+        background per computed band.
+
+        :param kwargs_lens: list of keyword arguments of the lens models
+        :param kwargs_source: list of keyword arguments of the source light models
+        :param kwargs_lens_light: list of keyword arguments of the lens light models
+        :param kwargs_ps: list of keyword arguments of the point source models
+        :return: number of linear parameters of the joint fit
+        """
+        for i in range(self._num_bands):
+            if self._compute_bool[i] is True:
+                return self._image_model_list[i].num_param_linear(
+                    kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+                ) + self._compute_bool.count(True)
+        return 0
+
     def update_linear_kwargs(
         self,
         param,
-- 
2.43.0


From e929e3a1a927f21a0890b11c90876fd38196f9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:00 +0000
Subject: [PATCH 078/175] fix: joint linear fit with varying background when
 not all bands are computed

---
 .../ImSim/MultiBand/joint_linear_vary_background.py        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
index 02d4c62..e14e5ec 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
@@ -143,8 +143,11 @@ class JointLinear_VaryBG(MultiLinear):
                     kwargs_special,
                 )
                 # Background response: ones for this band's pixels, zeros for all other bands
-                background_response_i = np.zeros((self._num_bands, A_i_start.shape[1]))
-                background_response_i[i, :] += 1
+                # (bands that are not computed do not have a background to be solved for)
+                background_response_i = np.zeros(
+                    (self._compute_bool.count(True), A_i_start.shape[1])
+                )
+                background_response_i[self._compute_bool[:i].count(True), :] += 1
                 A_i = np.append(A_i_start, background_response_i, axis=0)
 
                 if len(A) == 0:
-- 
2.43.0


From 8c035f01537eb491e127a7da86165d92cc876f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:28 +0000
Subject: [PATCH 079/175] fix: alignment of a single selected band

---
 lenstronomy/ImSim/MultiBand/single_band_multi_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/ImSim/MultiBand/single_band_multi_model.py b/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
index 138e802..f6d9a6a 100644
--- a/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
+++ b/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
@@ -100,6 +100,7 @@ class SingleBandMultiModel(ImageLinearFit, ImageModel):
             extinction_class,
             kwargs_numerics=kwargs_numerics,
             likelihood_mask=likelihood_mask_list[band_index],
+            image_index=band_index,
             kwargs_pixelbased=kwargs_pixelbased,
         )
 
-- 
2.43.0


From be3461c828f0b7af36d68a7a12c528796a0ecd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:28 +0000
Subject: [PATCH 080/175] fix: image reconstruction of joint linear fits when
 not all bands are computed

---
 lenstronomy/Analysis/image_reconstruction.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Analysis/image_reconstruction.py b/lenstronomy/Analysis/image_reconstruction.py
index c0972d3..a43e0b4 100644
--- a/lenstronomy/Analysis/image_reconstruction.py
+++ b/lenstronomy/Analysis/image_reconstruction.py
@@ -96,15 +96,18 @@ class MultiBandImageReconstruction(object):
                 if multi_band_type == "joint-linear":
                     param_i = param
                     cov_param_i = cov_param
+                    # only computed bands are part of the joint solution
+                    index = bands_compute[:i].count(True)
                 else:
                     param_i = param[i]
                     cov_param_i = cov_param[i]
+                    index = i
 
                 model_band = ModelBand(
                     multi_band_list,
                     kwargs_model,
-                    model[i],
-                    error_map[i],
+                    model[index],
+                    error_map[index],
                     cov_param_i,
                     param_i,
                     copy.deepcopy(kwargs_params),
-- 
2.43.0


From c97272c42a00db0e247f995dcc412ccd659a4480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:28 +0000
Subject: [PATCH 081/175] fix: image reconstruction does not add tracer
 arguments to the given parameters

---
 lenstronomy/Analysis/image_reconstruction.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/Analysis/image_reconstruction.py b/lenstronomy/Analysis/image_reconstruction.py
index a43e0b4..d0c905e 100644
--- a/lenstronomy/Analysis/image_reconstruction.py
+++ b/lenstronomy/Analysis/image_reconstruction.py
@@ -58,8 +58,12 @@ class MultiBandImageReconstruction(object):
         source_marg = kwargs_likelihood.get("source_marg", False)
         linear_prior = kwargs_likelihood.get("linear_prior", None)
         bands_compute = kwargs_likelihood.get("bands_compute", None)
-        # pop out the tracer_source arguments as they should not be passed to linear inversion routines
-        kwargs_tracer_source_temp = kwargs_params.pop("kwargs_tracer_source", None)
+        # leave out the tracer_source arguments as they should not be passed to linear inversion routines
+        kwargs_params = {
+            key: value
+            for key, value in kwargs_params.items()
+            if key != "kwargs_tracer_source"
+        }
         if bands_compute is None:
             bands_compute = [True] * len(multi_band_list)
         if multi_band_type == "single-band":
@@ -119,9 +123,6 @@ class MultiBandImageReconstruction(object):
             else:
                 self.model_band_list.append(None)
 
-        # add back the unchanged tracer_source arguments
-        kwargs_params["kwargs_tracer_source"] = kwargs_tracer_source_temp
-
     def band_setup(self, band_index=0):
         """ImageModel() instance and keyword arguments of the model components to
         execute all the options of the ImSim core modules.
-- 
2.43.0


From be9efdd5c93791c9ed2c93e9b34f9a77fcb0d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:22 +0000
Subject: [PATCH 082/175] fix: likelihood terms leave the lens model at its
 source redshift

---
 lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py | 6 +++++-
 lenstronomy/Sampling/Likelihoods/position_likelihood.py   | 7 ++++++-
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 5 ++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py b/lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py
index 81d4234..336fede 100644
--- a/lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py
@@ -73,11 +73,13 @@ class FluxRatioLikelihood(object):
         :return: log likelihood of the measured flux ratios given a model
         """
         log_l = 0
+        z_source = self._lens_model_class.z_source
         for k in range(len(ra_image_list)):
             if self._flux_ratio_measurement_bool[k] is True:
                 x_pos, y_pos = ra_image_list[k], dec_image_list[k]
+                z_source_k = self._point_source_redshift_list[k]
                 self._lens_model_class.change_source_redshift(
-                    z_source=self._point_source_redshift_list[k]
+                    z_source=z_source if z_source_k is None else z_source_k
                 )
                 if self._source_type == "INF":
                     mag = np.abs(
@@ -96,9 +98,11 @@ class FluxRatioLikelihood(object):
                         aspect_ratio=self._aspect_ratio,
                     )
                 if len(mag) - 1 != len(self._flux_ratios[k]):
+                    self._lens_model_class.change_source_redshift(z_source=z_source)
                     return -(10**15)
                 mag_ratio = mag[1:] / mag[0]
                 log_l += self._logL(mag_ratio, k=k)
+        self._lens_model_class.change_source_redshift(z_source=z_source)
         return log_l
 
     def _logL(self, flux_ratios, k=0):
diff --git a/lenstronomy/Sampling/Likelihoods/position_likelihood.py b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
index b5f12f1..84ff521 100644
--- a/lenstronomy/Sampling/Likelihoods/position_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
@@ -268,6 +268,7 @@ class PositionLikelihood(object):
         logL = 0
         source_x, source_y = self._pointSource.source_position(kwargs_ps, kwargs_lens)
         redshift_list = self._pointSource._redshift_list
+        z_source = self._lensModel.z_source
 
         for k in range(len(kwargs_ps)):
             if (
@@ -276,7 +277,9 @@ class PositionLikelihood(object):
             ):
                 x_image = kwargs_ps[k]["ra_image"]
                 y_image = kwargs_ps[k]["dec_image"]
-                self._lensModel.change_source_redshift(redshift_list[k])
+                self._lensModel.change_source_redshift(
+                    z_source if redshift_list[k] is None else redshift_list[k]
+                )
                 # calculating the individual source positions from the image positions
                 k_list = self._pointSource.k_list(k)
                 for i in range(len(x_image)):
@@ -308,9 +311,11 @@ class PositionLikelihood(object):
                     try:
                         Sigma_inv = inv(Sigma_beta)
                     except:
+                        self._lensModel.change_source_redshift(z_source)
                         return -(10**15)
                     chi2 = delta.T.dot(Sigma_inv.dot(delta))
                     logL -= chi2 / 2
+        self._lensModel.change_source_redshift(z_source)
         return logL
 
     @property
diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index 318828a..085bda3 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -138,12 +138,14 @@ class TimeDelayLikelihood(object):
             self._lensModel.update_cosmology(cosmo)
 
         logL = 0
+        z_source = self._lensModel.z_source
         for i in range(self._num_point_sources):
             mask = np.array(self._measurement_bool_list[i])
             if np.any(mask):
                 x_pos_, y_pos_ = x_pos[i], y_pos[i]
+                z_source_i = self._pointSource._redshift_list[i]
                 self._lensModel.change_source_redshift(
-                    z_source=self._pointSource._redshift_list[i]
+                    z_source=z_source if z_source_i is None else z_source_i
                 )
                 if self._lensModel.cosmology_sampling:
                     delay_days = self._lensModel.arrival_time(
@@ -170,6 +172,7 @@ class TimeDelayLikelihood(object):
                     logL += self._log_delay_masked(
                         delay_days=delay_days, mask=mask, i=i
                     )
+        self._lensModel.change_source_redshift(z_source=z_source)
         return logL
 
     def _log_delay_masked(self, delay_days, mask, i):
-- 
2.43.0


From df680626554f741ab03554100ccc8a9fe5e23ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:22 +0000
Subject: [PATCH 083/175] fix: number of time delay measurements

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index 085bda3..7127640 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -240,4 +240,4 @@ class TimeDelayLikelihood(object):
 
         :return: number of time delay measurements
         """
-        return len(self._delays_measured)
+        return int(sum(np.sum(mask) for mask in self._measurement_bool_list))
-- 
2.43.0


From e104b6c538b02342eeb2b8ba3e56e0515ba85261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:22 +0000
Subject: [PATCH 084/175] fix: underflow of the bimodal time delay likelihood

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index 7127640..b6a0881 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -166,7 +166,7 @@ class TimeDelayLikelihood(object):
                     logL2 = self._log_delay_masked(
                         delay_days=delay_days, mask=mask, i=1
                     )
-                    logL_sum = np.log(np.exp(logL1) + np.exp(logL2))
+                    logL_sum = np.logaddexp(logL1, logL2)
                     logL += logL_sum
                 else:
                     logL += self._log_delay_masked(
-- 
2.43.0


From c27c7bf5e9c7db9e566c7758b0c014e686af4e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:22 +0000
Subject: [PATCH 085/175] fix: sampled priors on special and extinction
 parameters

---
 .../Sampling/Likelihoods/prior_likelihood.py  | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/prior_likelihood.py b/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
index 02203b9..cb428c5 100644
--- a/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
@@ -73,7 +73,18 @@ class PriorLikelihood(object):
             self._prior_source_kde,
             self._prior_lens_light_kde,
             self._prior_ps_kde,
-        ) = (prior_lens_kde, prior_source_kde, prior_lens_light_kde, prior_ps_kde)
+            self._prior_extinction_kde,
+        ) = (
+            prior_lens_kde,
+            prior_source_kde,
+            prior_lens_light_kde,
+            prior_ps_kde,
+            prior_extinction_kde,
+        )
+        # the special parameters are a single keyword argument
+        self._prior_special_kde = None
+        if prior_special_kde is not None:
+            self._prior_special_kde = [[0, *prior] for prior in prior_special_kde]
         (
             self._prior_lens_lognormal,
             self._prior_source_lognormal,
@@ -94,7 +105,8 @@ class PriorLikelihood(object):
         self._kde_source_list = self._init_kde(prior_source_kde)
         self._kde_lens_light_list = self._init_kde(prior_lens_light_kde)
         self._kde_ps_list = self._init_kde(prior_ps_kde)
-        self._kde_lens_light_list = self._init_kde(prior_lens_light_kde)
+        self._kde_extinction_list = self._init_kde(prior_extinction_kde)
+        self._kde_special_list = self._init_kde(self._prior_special_kde)
 
     @staticmethod
     def _init_kde(prior_list_kde):
@@ -161,6 +173,12 @@ class PriorLikelihood(object):
             kwargs_lens_light, self._prior_lens_light_kde, self._kde_lens_light_list
         )
         logL += self._prior_kde_list(kwargs_ps, self._prior_ps_kde, self._kde_ps_list)
+        logL += self._prior_kde_list(
+            kwargs_extinction, self._prior_extinction_kde, self._kde_extinction_list
+        )
+        logL += self._prior_kde_list(
+            [kwargs_special], self._prior_special_kde, self._kde_special_list
+        )
         return logL
 
     @staticmethod
-- 
2.43.0


From 4753aa834644a810f430608e3d0f1b5eec8558d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:22 +0000
Subject: [PATCH 086/175] fix: source plane covariance of non-symmetric
 Jacobians

---
 lenstronomy/Sampling/Likelihoods/position_likelihood.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/position_likelihood.py b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
index 84ff521..e5406b7 100644
--- a/lenstronomy/Sampling/Likelihoods/position_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
@@ -337,8 +337,8 @@ class PositionLikelihood(object):
 def image2source_covariance(A, Sigma_theta):
     """
     computes error covariance in the source plane
-    A: Hessian lensing matrix
+    A: lensing Jacobian d_beta / d_theta
     Sigma_theta: image plane covariance matrix of uncertainties
     """
-    ATSigma = np.matmul(A.T, Sigma_theta)
-    return np.matmul(ATSigma, A)
+    ASigma = np.matmul(A, Sigma_theta)
+    return np.matmul(ASigma, A.T)
-- 
2.43.0


From e1d5601ade164b092a3182be604ebcba9a3e9fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:22 +0000
Subject: [PATCH 087/175] fix: likelihoods that are not a number are replaced
 by a low value

---
 lenstronomy/Sampling/Likelihoods/image_likelihood.py    | 2 +-
 lenstronomy/Sampling/Likelihoods/position_likelihood.py | 2 +-
 lenstronomy/Sampling/Likelihoods/tracer_likelihood.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/image_likelihood.py b/lenstronomy/Sampling/Likelihoods/image_likelihood.py
index a16dd7a..d041d19 100644
--- a/lenstronomy/Sampling/Likelihoods/image_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/image_likelihood.py
@@ -82,7 +82,7 @@ class ImageLikelihood(object):
             linear_prior=self._linear_prior,
             check_positive_flux=self._check_positive_flux,
         )
-        if np.isnan(logL) is True:
+        if np.isnan(logL):
             return -(10**15), param
         return logL, param
 
diff --git a/lenstronomy/Sampling/Likelihoods/position_likelihood.py b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
index e5406b7..b1fcbde 100644
--- a/lenstronomy/Sampling/Likelihoods/position_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
@@ -199,7 +199,7 @@ class PositionLikelihood(object):
             )
             dist = (delta_x**2 + delta_y**2) / sigma**2 / 2
             logL = -np.sum(dist)
-            if np.isnan(logL) is True:
+            if np.isnan(logL):
                 return -(10**15)
             return logL
         else:
diff --git a/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py b/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
index c16686f..9932e05 100644
--- a/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
@@ -71,7 +71,7 @@ class TracerLikelihood(object):
             kwargs_extinction=kwargs_extinction,
             kwargs_special=kwargs_special,
         )
-        if np.isnan(logL) is True:
+        if np.isnan(logL):
             return -(10**15)
         return logL
 
-- 
2.43.0


From 55efeae13c0aea4b45a226383cde330b83379da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:46 +0000
Subject: [PATCH 088/175] fix: all likelihood terms use the sampled cosmology
 of the current parameters

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 6 +++---
 lenstronomy/Sampling/likelihood.py                        | 8 ++++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index b6a0881..f764f4c 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -127,15 +127,15 @@ class TimeDelayLikelihood(object):
         :type lambda_mst: float or int
         :return: log likelihood of the model given the time delay data.
         """
-        x_pos, y_pos = self._pointSource.image_position(
-            kwargs_ps=kwargs_ps, kwargs_lens=kwargs_lens, original_position=True
-        )
         if self._lensModel.cosmology_sampling:
             cosmo = get_astropy_cosmology(
                 cosmology_model=self._lensModel.cosmology_model,
                 param_kwargs=kwargs_cosmo,
             )
             self._lensModel.update_cosmology(cosmo)
+        x_pos, y_pos = self._pointSource.image_position(
+            kwargs_ps=kwargs_ps, kwargs_lens=kwargs_lens, original_position=True
+        )
 
         logL = 0
         z_source = self._lensModel.z_source
diff --git a/lenstronomy/Sampling/likelihood.py b/lenstronomy/Sampling/likelihood.py
index f498b40..f80ef82 100644
--- a/lenstronomy/Sampling/likelihood.py
+++ b/lenstronomy/Sampling/likelihood.py
@@ -8,6 +8,7 @@ from lenstronomy.Sampling.Likelihoods.flux_ratio_likelihood import FluxRatioLike
 from lenstronomy.Sampling.Likelihoods.prior_likelihood import PriorLikelihood
 from lenstronomy.Sampling.Likelihoods.kinematic_2D_likelihood import KinLikelihood
 import lenstronomy.Util.class_creator as class_creator
+from lenstronomy.Util.cosmo_util import get_astropy_cosmology
 import numpy as np
 
 __all__ = ["Likelihood"]
@@ -293,6 +294,7 @@ class Likelihood(object):
             _,
         ) = class_creator.create_class_instances(all_models=True, **kwargs_model)
         self.PointSource = point_source_class
+        self._lens_model_class = lens_model_class
 
         if self._time_delay_likelihood is True:
             self.time_delay_likelihood = TimeDelayLikelihood(
@@ -562,6 +564,12 @@ class Likelihood(object):
         :return: None, all class instances updated to recent model
         """
         kwargs_model, update_bool = self.param.update_kwargs_model(kwargs_special)
+        if self._lens_model_class.cosmology_sampling:
+            cosmo = get_astropy_cosmology(
+                cosmology_model=self._lens_model_class.cosmology_model,
+                param_kwargs=kwargs_special,
+            )
+            self._lens_model_class.update_cosmology(cosmo)
         if update_bool is True:
             self._class_instances(
                 kwargs_model=kwargs_model,
-- 
2.43.0


From 67c13c73d31aa70bff69dac82ff99d581266ed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:46 +0000
Subject: [PATCH 089/175] fix: point source caches are released when the custom
 likelihood rejects a model

---
 lenstronomy/Sampling/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/likelihood.py b/lenstronomy/Sampling/likelihood.py
index f80ef82..ca7d364 100644
--- a/lenstronomy/Sampling/likelihood.py
+++ b/lenstronomy/Sampling/likelihood.py
@@ -440,7 +440,7 @@ class Likelihood(object):
                 if verbose is True:
                     print("tracer logL = %s" % logL_tracer)
                 logL += logL_tracer
-            self._reset_point_source_cache(bool_input=False)
+        self._reset_point_source_cache(bool_input=False)
         return logL  # , None
 
     @staticmethod
-- 
2.43.0


From 12711750ce6b8950ae5f092ec3be515fe6736632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:30 +0000
Subject: [PATCH 090/175] fix: particles of the swarm remember their personal
 best position

---
 lenstronomy/Sampling/Samplers/pso.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Samplers/pso.py b/lenstronomy/Sampling/Samplers/pso.py
index ff1d1ec..89af49e 100644
--- a/lenstronomy/Sampling/Samplers/pso.py
+++ b/lenstronomy/Sampling/Samplers/pso.py
@@ -144,7 +144,10 @@ class ParticleSwarmOptimizer(object):
                     # print("new global best found %i %s"%(i,
                     # self.global_best.__str__()))
 
-                if particle.fitness > particle.personal_best.fitness:
+                if (
+                    particle.personal_best is particle
+                    or particle.fitness > particle.personal_best.fitness
+                ):
                     particle.update_personal_best()
 
             if i >= max_iter:
-- 
2.43.0


From 05bae9396fba3e70aab207638807b1993070c76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:30 +0000
Subject: [PATCH 091/175] fix: pickling the swarm optimizer keeps its own pool

---
 lenstronomy/Sampling/Samplers/pso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Samplers/pso.py b/lenstronomy/Sampling/Samplers/pso.py
index 89af49e..5329a80 100644
--- a/lenstronomy/Sampling/Samplers/pso.py
+++ b/lenstronomy/Sampling/Samplers/pso.py
@@ -68,7 +68,7 @@ class ParticleSwarmOptimizer(object):
     def __getstate__(self):
         """In order to be generally pickleable, we need to discard the pool object
         before trying."""
-        d = self.__dict__
+        d = dict(self.__dict__)
         d["pool"] = None
         return d
 
-- 
2.43.0


From a8174cfc875638f3bc62da117b78ff644ec1f31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:43 +0000
Subject: [PATCH 092/175] fix: nested sampling returns the likelihood of each
 sample and keeps the best sample

---
 lenstronomy/Sampling/Samplers/dynesty_sampler.py   | 6 +++++-
 lenstronomy/Sampling/Samplers/multinest_sampler.py | 8 ++++----
 lenstronomy/Workflow/fitting_sequence.py           | 3 ++-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/Sampling/Samplers/dynesty_sampler.py b/lenstronomy/Sampling/Samplers/dynesty_sampler.py
index 96ef27e..db3e258 100644
--- a/lenstronomy/Sampling/Samplers/dynesty_sampler.py
+++ b/lenstronomy/Sampling/Samplers/dynesty_sampler.py
@@ -115,7 +115,11 @@ class DynestySampler(NestedSampler):
         means, covs = self._dyfunc.mean_and_cov(samples_w, weights)
 
         # Resample weighted samples to get equally weighted (aka unweighted) samples
-        samples = self._dyfunc.resample_equal(samples_w, weights)
+        # (jointly with their likelihood, such that logL[i] belongs to samples[i])
+        resampled = self._dyfunc.resample_equal(
+            np.column_stack([samples_w, log_l]), weights
+        )
+        samples, log_l = resampled[:, :-1], resampled[:, -1]
 
         return samples, means, log_z, log_z_err, log_l, results
 
diff --git a/lenstronomy/Sampling/Samplers/multinest_sampler.py b/lenstronomy/Sampling/Samplers/multinest_sampler.py
index 8b99e0e..3fcc8b7 100644
--- a/lenstronomy/Sampling/Samplers/multinest_sampler.py
+++ b/lenstronomy/Sampling/Samplers/multinest_sampler.py
@@ -115,21 +115,21 @@ class MultiNestSampler(NestedSampler):
             analyzer = self._Analyzer(
                 self.n_dims, outputfiles_basename=self.files_basename
             )
-            samples = analyzer.get_equal_weighted_posterior()[:, :-1]
-            data = analyzer.get_data()  # gets data from the *.txt output file
+            # columns are the parameters followed by the log likelihood
+            posterior = analyzer.get_equal_weighted_posterior()
+            samples, logL = posterior[:, :-1], posterior[:, -1]
             stats = analyzer.get_stats()
 
         else:
             # in case MultiNest was not compiled properly, for unit tests
             samples = np.zeros((1, self.n_dims))
-            data = np.zeros((self.n_dims, 3))
+            logL = np.zeros(1)
             stats = {
                 "global evidence": np.zeros(self.n_dims),
                 "global evidence error": np.zeros(self.n_dims),
                 "modes": [{"mean": np.zeros(self.n_dims)}],
             }
 
-        logL = -0.5 * data[:, 1]  # since the second data column is -2*logL
         logZ = stats["global evidence"]
         logZ_err = stats["global evidence error"]
         # or better to use stats['marginals'][:]['median'] ???
diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index e45bdab..d383dcf 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -574,7 +574,8 @@ class FittingSequence(object):
             )
 
         # update current best fit values
-        self._update_state(samples[-1])
+        kwargs_result = self.best_fit_from_samples(samples, logL)
+        self._updateManager.update_param_state(**kwargs_result)
 
         output = [
             sampler_type,
-- 
2.43.0


From 6694178cebc3f063375a7f6a4a786f8006c449ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:43 +0000
Subject: [PATCH 093/175] fix: skewed Gaussian with zero skewness

---
 lenstronomy/Util/prob_density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/prob_density.py b/lenstronomy/Util/prob_density.py
index dc47045..47f987f 100644
--- a/lenstronomy/Util/prob_density.py
+++ b/lenstronomy/Util/prob_density.py
@@ -49,7 +49,7 @@ class SkewGaussian(object):
         """
         skw_23 = np.abs(skw) ** (2.0 / 3)
         delta2 = skw_23 * np.pi / 2 / (skw_23 + ((4 - np.pi) / 2) ** (2.0 / 3))
-        return np.sqrt(delta2) * skw / np.abs(skw)
+        return np.sqrt(delta2) * np.sign(skw)
 
     def _alpha_delta(self, delta):
         """
-- 
2.43.0


From 815e78a5f07ce0c3029d3d1d542c6b699f5ac05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:43 +0000
Subject: [PATCH 094/175] fix: upper error of a sample is the mirror image of
 the lower error

---
 lenstronomy/Util/prob_density.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Util/prob_density.py b/lenstronomy/Util/prob_density.py
index 47f987f..35c6a92 100644
--- a/lenstronomy/Util/prob_density.py
+++ b/lenstronomy/Util/prob_density.py
@@ -141,17 +141,17 @@ def compute_lower_upper_errors(sample, num_sigma=1):
     median = np.median(sample)
     sorted_sample = np.sort(sample)
     if num_sigma > 0:
-        upper_sigma1 = sorted_sample[num_threshold1 - 1]
+        upper_sigma1 = sorted_sample[num_threshold1]
         lower_sigma1 = sorted_sample[num - num_threshold1 - 1]
     else:
         return median, [[]]
     if num_sigma > 1:
-        upper_sigma2 = sorted_sample[num_threshold2 - 1]
+        upper_sigma2 = sorted_sample[num_threshold2]
         lower_sigma2 = sorted_sample[num - num_threshold2 - 1]
     else:
         return median, [[median - lower_sigma1, upper_sigma1 - median]]
     if num_sigma > 2:
-        upper_sigma3 = sorted_sample[num_threshold3 - 1]
+        upper_sigma3 = sorted_sample[num_threshold3]
         lower_sigma3 = sorted_sample[num - num_threshold3 - 1]
         return median, [
             [median - lower_sigma1, upper_sigma1 - median],
-- 
2.43.0


From 814c955f583d46784478be9a7683c2bc047bf826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:12 +0000
Subject: [PATCH 095/175] fix: concentration of (g)NFW halos at more than one
 redshift

---
 lenstronomy/Cosmo/gnfw_param.py | 6 +++++-
 lenstronomy/Cosmo/nfw_param.py  | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Cosmo/gnfw_param.py b/lenstronomy/Cosmo/gnfw_param.py
index e93b232..21bef79 100644
--- a/lenstronomy/Cosmo/gnfw_param.py
+++ b/lenstronomy/Cosmo/gnfw_param.py
@@ -130,7 +130,11 @@ class GNFWParam(object):
         :rtype: float
         """
         c_array = np.linspace(0.1, 30, 100)
-        if not hasattr(self, "_rho0_c_gamma_in_interps"):
+        if (
+            not hasattr(self, "_rho0_c_gamma_in_interps")
+            or self._rho0_c_gamma_in_interps_z != z
+        ):
+            self._rho0_c_gamma_in_interps_z = z
             gamma_in_array = np.linspace(0.1, 2.99, 100)
             self._rho0_c_gamma_in_interps = []
 
diff --git a/lenstronomy/Cosmo/nfw_param.py b/lenstronomy/Cosmo/nfw_param.py
index 598971d..0eb861e 100644
--- a/lenstronomy/Cosmo/nfw_param.py
+++ b/lenstronomy/Cosmo/nfw_param.py
@@ -102,10 +102,11 @@ class NFWParam(object):
         :return: concentration parameter c
         :rtype: float
         """
-        if not hasattr(self, "_c_rho0_interp"):
+        if not hasattr(self, "_c_rho0_interp") or self._c_rho0_interp_z != z:
             c_array = np.linspace(0.1, 30, 100)
             rho0_array = self.rho0_c(c_array, z)
 
+            self._c_rho0_interp_z = z
             self._c_rho0_interp = interpolate.InterpolatedUnivariateSpline(
                 rho0_array, c_array, w=None, bbox=[None, None], k=3
             )
-- 
2.43.0


From c4d7a736fc4683b1bb992951a9a0950767cc25ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:28 +0000
Subject: [PATCH 096/175] fix: interpolated light profiles follow a changed
 image

---
 lenstronomy/LightModel/Profiles/interpolation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LightModel/Profiles/interpolation.py b/lenstronomy/LightModel/Profiles/interpolation.py
index d1c6414..449f799 100644
--- a/lenstronomy/LightModel/Profiles/interpolation.py
+++ b/lenstronomy/LightModel/Profiles/interpolation.py
@@ -59,7 +59,9 @@ class Interpol(object):
         return amp * self.image_interp(x_, y_, image)
 
     def image_interp(self, x, y, image):
-        if not hasattr(self, "_image_interp"):
+        if not hasattr(self, "_image_interp") or not np.array_equal(
+            image, self._image_cached
+        ):
             # Setup the interpolator.
             # Note that 'x' and 'y' in this block only refer to first and second
             # image array axes. Outside this block it is more complicated.
@@ -72,6 +74,7 @@ class Interpol(object):
             self._image_interp = scipy.interpolate.RectBivariateSpline(
                 x_grid, y_grid, image_bounds, kx=1, ky=1, s=0
             )
+            self._image_cached = np.array(image)
 
         # y and x must be flipped in call to interpolator
         # (try reversing, the unit tests will fail)
-- 
2.43.0


From 7643cc88bfb5116eab75dc508742dd032b4b13e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:28 +0000
Subject: [PATCH 097/175] fix: linear light profile at a single position and
 with zero amplitude

---
 lenstronomy/LightModel/Profiles/linear.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lenstronomy/LightModel/Profiles/linear.py b/lenstronomy/LightModel/Profiles/linear.py
index 660ea77..e0cd9a7 100644
--- a/lenstronomy/LightModel/Profiles/linear.py
+++ b/lenstronomy/LightModel/Profiles/linear.py
@@ -40,9 +40,7 @@ class Linear(object):
         :return: surface brightness at (x, y)
         """
         dis = np.sqrt((x - center_x) ** 2 + (y - center_y) ** 2)
-        f = amp * (k / amp * dis + 1)
-        f[f < 0] = 0
-        return f
+        return np.maximum(k * dis + amp, 0)
 
     def total_flux(self, amp, k, center_x=0, center_y=0):
         """Integrated flux of the profile.
-- 
2.43.0


From e55dd22aeb699edfc85f44ca8522f1467e70c2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:28 +0000
Subject: [PATCH 098/175] fix: shapelets far out on the negative side and at
 integer coordinates

---
 lenstronomy/LightModel/Profiles/shapelets.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/LightModel/Profiles/shapelets.py b/lenstronomy/LightModel/Profiles/shapelets.py
index 6ade404..7b8ec1a 100644
--- a/lenstronomy/LightModel/Profiles/shapelets.py
+++ b/lenstronomy/LightModel/Profiles/shapelets.py
@@ -111,13 +111,14 @@ class Shapelets(object):
             n_max = len(n_array)
             x_cut = np.sqrt(n_max + 1) * self._cut_scale
             if isinstance(x, int) or isinstance(x, float):
-                if x >= x_cut:
+                if np.abs(x) >= x_cut:
                     return 0
                 else:
                     return hermite.hermval(x, n_array)
             else:
-                out = np.zeros_like(x)
-                out[x < x_cut] = hermite.hermval(x[x < x_cut], n_array, tensor=tensor)
+                out = np.zeros_like(x, dtype=float)
+                inside = np.abs(x) < x_cut
+                out[inside] = hermite.hermval(x[inside], n_array, tensor=tensor)
                 return out
 
     def function(self, x, y, amp, beta, n1, n2, center_x, center_y):
-- 
2.43.0


From 1c50c53378276bc30d0526605c51f2325d48c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:28 +0000
Subject: [PATCH 099/175] fix: profile settings of the light model passed in
 are not modified

---
 lenstronomy/LightModel/light_model_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/LightModel/light_model_base.py b/lenstronomy/LightModel/light_model_base.py
index 00d392b..01cc8c4 100644
--- a/lenstronomy/LightModel/light_model_base.py
+++ b/lenstronomy/LightModel/light_model_base.py
@@ -62,8 +62,7 @@ class LightModelBase(object):
             profile_kwargs_list = [{} for _ in range(len(light_model_list))]
 
         for profile_type, profile_kwargs in zip(light_model_list, profile_kwargs_list):
-            if profile_kwargs is None:
-                profile_kwargs = {}
+            profile_kwargs = {} if profile_kwargs is None else dict(profile_kwargs)
             if profile_type == "GAUSSIAN":
                 from lenstronomy.LightModel.Profiles.gaussian import Gaussian
 
-- 
2.43.0


From 68daa781e73ed228d3079f411549f3976a37b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:28 +0000
Subject: [PATCH 100/175] fix: default range of the ellipticity of elliptical
 Gaussian and linear light profiles

---
 lenstronomy/LightModel/Profiles/gaussian.py | 8 ++++----
 lenstronomy/LightModel/Profiles/linear.py   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LightModel/Profiles/gaussian.py b/lenstronomy/LightModel/Profiles/gaussian.py
index 74806de..0c7b2e4 100644
--- a/lenstronomy/LightModel/Profiles/gaussian.py
+++ b/lenstronomy/LightModel/Profiles/gaussian.py
@@ -87,8 +87,8 @@ class GaussianEllipse(object):
     upper_limit_default = {
         "amp": 1000,
         "sigma": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
@@ -247,8 +247,8 @@ class MultiGaussianEllipse(object):
     upper_limit_default = {
         "amp": 1000,
         "sigma": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
diff --git a/lenstronomy/LightModel/Profiles/linear.py b/lenstronomy/LightModel/Profiles/linear.py
index e0cd9a7..e8f9a8c 100644
--- a/lenstronomy/LightModel/Profiles/linear.py
+++ b/lenstronomy/LightModel/Profiles/linear.py
@@ -73,8 +73,8 @@ class LinearEllipse(object):
     upper_limit_default = {
         "k": 1000,
         "amp": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
-- 
2.43.0


From 8395b900db57d8cda7afabb6fef4a208c92f02df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:55 +0000
Subject: [PATCH 101/175] fix: positive flux condition of all profiles with a
 physical amplitude

---
 lenstronomy/LightModel/linear_basis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lenstronomy/LightModel/linear_basis.py b/lenstronomy/LightModel/linear_basis.py
index 2c5fd52..be07856 100644
--- a/lenstronomy/LightModel/linear_basis.py
+++ b/lenstronomy/LightModel/linear_basis.py
@@ -296,6 +296,7 @@ class LinearBasis(LightModelBase):
                     "CHAMELEON",
                     "CORE_SERSIC",
                     "DOUBLE_CHAMELEON",
+                    "ELLIPSOID",
                     "GAUSSIAN",
                     "GAUSSIAN_ELLIPSE",
                     "HERNQUIST",
@@ -308,6 +309,8 @@ class LinearBasis(LightModelBase):
                     "SERSIC",
                     "SERSIC_ELLIPSE",
                     "SERSIC_ELLIPSE_FLEXION",
+                    "SERSIC_ELLIPSE_Q_PHI",
+                    "TRIPLE_CHAMELEON",
                 ]:
                     if np.any(np.array(kwargs_list[k]["amp"]) < 0):
                         pos_bool = False
-- 
2.43.0


From be059c54a55018e9d7be8eac828470e2327b6c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:42 +0000
Subject: [PATCH 102/175] fix: primary beam is not part of the unconvolved
 linear response

---
 lenstronomy/ImSim/image_linear_solve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/ImSim/image_linear_solve.py b/lenstronomy/ImSim/image_linear_solve.py
index 54eb55a..f4af2ec 100644
--- a/lenstronomy/ImSim/image_linear_solve.py
+++ b/lenstronomy/ImSim/image_linear_solve.py
@@ -394,8 +394,8 @@ class ImageLinearFit(ImageModel):
         # response of lensed source profile
         for i in range(0, n_source):
             image = source_light_response[i]
-            # multiply with primary beam
-            if self._pb is not None:
+            # multiply with primary beam (the unconvolved response is the one of the sky)
+            if self._pb is not None and not unconvolved:
                 image *= self._pb_1d
             image *= extinction
             image = self.ImageNumerics.re_size_convolve(image, unconvolved=unconvolved)
@@ -404,8 +404,8 @@ class ImageLinearFit(ImageModel):
         # response of deflector light profile (or any other un-lensed extended components)
         for i in range(0, n_lens_light):
             image = lens_light_response[i]
-            # multiply with primary beam
-            if self._pb is not None:
+            # multiply with primary beam (the unconvolved response is the one of the sky)
+            if self._pb is not None and not unconvolved:
                 image *= self._pb_1d
             image = self.ImageNumerics.re_size_convolve(image, unconvolved=unconvolved)
             A[n, :] = np.nan_to_num(self.image2array_masked(image), copy=False)
-- 
2.43.0


From ae6d17888651edf2e6ca2b0bef2d037055947e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:36 +0000
Subject: [PATCH 103/175] fix: lens model is not left static when no image is
 found

---
 lenstronomy/LensModel/Solver/lens_equation_solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index f0e2651..d05397f 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -345,6 +345,7 @@ class LensEquationSolver(object):
                 "coordinates %s and %s " % (len(x_mins), x_mins, y_mins)
             )
         if len(x_mins) < 1:
+            self.lensModel.set_dynamic()
             return x_mins, y_mins
         if initial_guess_cut:
             mag = np.abs(self.lensModel.magnification(x_mins, y_mins, kwargs_lens))
-- 
2.43.0


From 4f91068f17a2acad81bb3498541da4d91bb117cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:36 +0000
Subject: [PATCH 104/175] fix: grid minima with equal values of neighbouring
 pixels are not missed

---
 lenstronomy/Util/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index 45d6ada..6a1569e 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -577,12 +577,12 @@ def local_minima_2d(a, x, y):
     y_mins = []
     for i in range(dim + 1, len(a) - dim - 1):
         if (
-            a[i] < a[i - 1]
+            a[i] <= a[i - 1]
             and a[i] < a[i + 1]
-            and a[i] < a[i - dim]
+            and a[i] <= a[i - dim]
             and a[i] < a[i + dim]
-            and a[i] < a[i - (dim - 1)]
-            and a[i] < a[i - (dim + 1)]
+            and a[i] <= a[i - (dim - 1)]
+            and a[i] <= a[i - (dim + 1)]
             and a[i] < a[i + (dim - 1)]
             and a[i] < a[i + (dim + 1)]
         ):
-- 
2.43.0


From 0e4609ca37c1e4667ca2d2e6f385e144d37fecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:45 +0000
Subject: [PATCH 105/175] fix: centre of the convergence sheet in the
 analytical lens equation solver

---
 lenstronomy/LensModel/Solver/lens_equation_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index d05397f..437044b 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -202,8 +202,8 @@ class LensEquationSolver(object):
                 1 - kappa
             )  # a mass sheet that compensates the convergence field
             # source position mapping
-            x_ = (x - ra0) / lambda_mst
-            y_ = (y - dec0) / lambda_mst
+            x_ = (x - kappa * ra0) / lambda_mst
+            y_ = (y - kappa * dec0) / lambda_mst
             # lens mapping
             # power-law scaling with mst
             # alpha = theta_E * (r2 / theta_E**2) ** (1 - gamma / 2.0)
-- 
2.43.0


From ca0d15d1e752d098d84f772fd305142072dfcfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:45 +0000
Subject: [PATCH 106/175] fix: position of the convergence sheet in the list of
 the analytical lens equation solver

---
 .../LensModel/Solver/lens_equation_solver.py  | 31 ++++++++-----------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index 437044b..2911db3 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -201,38 +201,33 @@ class LensEquationSolver(object):
             lambda_mst = (
                 1 - kappa
             )  # a mass sheet that compensates the convergence field
-            # source position mapping
-            x_ = (x - kappa * ra0) / lambda_mst
-            y_ = (y - kappa * dec0) / lambda_mst
-            # lens mapping
-            # power-law scaling with mst
-            # alpha = theta_E * (r2 / theta_E**2) ** (1 - gamma / 2.0)
-            gamma = kwargs_lens[0]["gamma"] if "gamma" in kwargs_lens[0] else 2
-
-            kwargs_lens_[0]["theta_E"] /= lambda_mst ** (1.0 / (gamma - 1))
-            if "SHEAR" in lens_model_list:
-                kwargs_lens_[1]["gamma1"] /= lambda_mst
-                kwargs_lens_[1]["gamma2"] /= lambda_mst
-
             # removing of kwargs_lens of "CONVERGENCE" profile
             kwargs_lens_.pop(index_convergence)
             lens_model_list.pop(index_convergence)
+            # source position mapping
+            x_ = (x - kappa * ra0) / lambda_mst
+            y_ = (y - kappa * dec0) / lambda_mst
         else:
             kwargs_lens_ = copy.deepcopy(kwargs_lens)
             x_, y_ = x, y
+            lambda_mst = 1
         if lens_model_list not in SUPPORTED_LENS_MODELS_ANALYTICAL:
             raise ValueError(
                 "Only SIS (only with shear), SIE, EPL, EPL_NUMBA (+shear +convergence) "
                 "supported in the analytical solver for now."
             )
 
-        # re-scale solutions if source redshift has changed (i.e. alpha_scaling != 1)
+        # lens mapping
+        # power-law scaling with mst
+        # alpha = theta_E * (r2 / theta_E**2) ** (1 - gamma / 2.0)
+        # and re-scale solutions if source redshift has changed (i.e. alpha_scaling != 1)
 
-        gamma = kwargs_lens[0]["gamma"] if "gamma" in kwargs_lens[0] else 2
-        kwargs_lens_[0]["theta_E"] *= alpha_scaling ** (1.0 / (gamma - 1))
+        gamma = kwargs_lens_[0]["gamma"] if "gamma" in kwargs_lens_[0] else 2
+        scaling = alpha_scaling / lambda_mst
+        kwargs_lens_[0]["theta_E"] *= scaling ** (1.0 / (gamma - 1))
         if "SHEAR" in lens_model_list:
-            kwargs_lens_[1]["gamma1"] *= alpha_scaling
-            kwargs_lens_[1]["gamma2"] *= alpha_scaling
+            kwargs_lens_[1]["gamma1"] *= scaling
+            kwargs_lens_[1]["gamma2"] *= scaling
 
         x_mins, y_mins = solve_lenseq_pemd((x_, y_), kwargs_lens_, **kwargs_solver)
 
-- 
2.43.0


From b21b0a5b3fe8dab6e9a5539b323392bd9d05641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:45 +0000
Subject: [PATCH 107/175] fix: default deflector centre in the analytical lens
 equation solver

---
 lenstronomy/LensModel/Solver/epl_shear_solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Solver/epl_shear_solver.py b/lenstronomy/LensModel/Solver/epl_shear_solver.py
index 5f2ffb3..817f77c 100644
--- a/lenstronomy/LensModel/Solver/epl_shear_solver.py
+++ b/lenstronomy/LensModel/Solver/epl_shear_solver.py
@@ -258,7 +258,9 @@ def _check_center(kwargs_lens):
         shear = Shear()
         # calculate shift from the deflector centroid from the shear field
         alpha_x, alpha_y = shear.derivatives(
-            kwargs_lens[0]["center_x"], kwargs_lens[0]["center_y"], **kwargs_lens[1]
+            kwargs_lens[0].get("center_x", 0),
+            kwargs_lens[0].get("center_y", 0),
+            **kwargs_lens[1],
         )
         return alpha_x, alpha_y
     else:
@@ -295,7 +297,7 @@ def solve_lenseq_pemd(pos_, kwargs_lens, Nmeas=400, Nmeas_extra=80, **kwargs):
         gamma = 0 + 0j
     shift_x, shift_y = _check_center(kwargs_lens)
     shift = shift_x + 1j * shift_y
-    cen = kwargs_lens[0]["center_x"] + 1j * kwargs_lens[0]["center_y"]
+    cen = kwargs_lens[0].get("center_x", 0) + 1j * kwargs_lens[0].get("center_y", 0)
     p = pos[0] + 1j * pos[1] - cen + shift
 
     rotfact = np.exp(-1j * theta_ell)
-- 
2.43.0


From 71465d1485f67ffcef05c084da005d55c5e59c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:31 +0000
Subject: [PATCH 108/175] fix: radius of shell apertures relative to their
 centre

---
 lenstronomy/GalKin/aperture_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index 5c508a5..1dd82e8 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -345,7 +345,7 @@ class Shell(ApertureBase):
             self._center_ra,
             self._center_dec,
         )
-        r_grid = np.sqrt(x_grid**2 + y_grid**2)
+        r_grid = np.sqrt((x_grid - center_ra) ** 2 + (y_grid - center_dec) ** 2)
         bins = np.zeros_like(x_grid, dtype=int)
         bins[r_grid < self._r_in] = -1
         bins[r_grid > self._r_out] = -1
@@ -515,7 +515,7 @@ class IFUShells(ApertureBase):
             center_ra,
             center_dec,
         )
-        r_grid = np.sqrt(x_grid**2 + y_grid**2)
+        r_grid = np.sqrt((x_grid - center_ra) ** 2 + (y_grid - center_dec) ** 2)
         bins = np.ones_like(x_grid, dtype=int) * -1
         for i in range(len(r_bins) - 1):
             mask = (r_grid >= r_bins[i]) & (r_grid < r_bins[i + 1])
-- 
2.43.0


From f31cbd9a0de4ee6f01dee26db28445f601567c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:31 +0000
Subject: [PATCH 109/175] fix: hole of a rotated frame aperture

---
 lenstronomy/GalKin/aperture_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index 1dd82e8..9b3b109 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -266,8 +266,9 @@ class Frame(ApertureBase):
             self._angle,
         )
         bins = np.zeros_like(x_grid, dtype=int)
-        mask_inner = (np.abs(x_grid - center_ra) < width_inner / 2) & (
-            np.abs(y_grid - center_dec) < width_inner / 2
+        x_frame, y_frame = _rotate(x_grid - center_ra, y_grid - center_dec, -angle)
+        mask_inner = (np.abs(x_frame) < width_inner / 2) & (
+            np.abs(y_frame) < width_inner / 2
         )
         bins[mask_inner] = -1
 
-- 
2.43.0


From 5e887c21ecf414cf98d1b4d6771c87903881bd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:31 +0000
Subject: [PATCH 110/175] fix: pixel selection of rotated IFU grids and of
 grids with a decreasing coordinate

---
 lenstronomy/GalKin/aperture_types.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index 9b3b109..9717702 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -441,7 +441,7 @@ class IFUGrid(ApertureBase):
         :param dec: angular coordinate of photon/ray
         :return: bool, True if photon/ray is within the slit, False otherwise, index of shell
         """
-        return grid_ifu_select(ra, dec, self._x_grid, self._y_grid)
+        return grid_ifu_select(ra, dec, self._x_grid, self._y_grid, self._angle)
 
     @property
     def num_segments(self):
@@ -463,17 +463,21 @@ class IFUGrid(ApertureBase):
 
 
 @export
-def grid_ifu_select(ra, dec, x_grid, y_grid):
+def grid_ifu_select(ra, dec, x_grid, y_grid, angle=0):
     """
 
     :param ra: angular coordinate of photon/ray
     :param dec: angular coordinate of photon/ray
     :param x_grid: array of x_grid bins
     :param y_grid: array of y_grid bins
+    :param angle: angle of the grid in radians
     :return: boolean, True if within the grid range, False otherwise
     """
-    x_pixel_size = x_grid[0, 1] - x_grid[0, 0]
-    y_pixel_size = y_grid[1, 0] - y_grid[0, 0]
+    # rotate to the frame aligned with the pixels
+    ra, dec = _rotate(ra, dec, -angle)
+    x_grid, y_grid = _rotate(x_grid, y_grid, -angle)
+    x_pixel_size = np.abs(x_grid[0, 1] - x_grid[0, 0])
+    y_pixel_size = np.abs(y_grid[1, 0] - y_grid[0, 0])
 
     for i in range(x_grid.shape[0]):
         for j in range(x_grid.shape[1]):
@@ -603,7 +607,9 @@ class IFUBinned(ApertureBase):
         :param dec: angular coordinate of photon/ray
         :return: bool, True if photon/ray is within the slit, False otherwise, and bin id
         """
-        in_grid, grid_loc = grid_ifu_select(ra, dec, self._x_grid, self._y_grid)
+        in_grid, grid_loc = grid_ifu_select(
+            ra, dec, self._x_grid, self._y_grid, self._angle
+        )
         if in_grid:
             bin_id = self.bins[grid_loc]
             if bin_id > -1:
-- 
2.43.0


From 46eb1324d8d21108d3be88ca4849312b1087a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:59 +0000
Subject: [PATCH 111/175] fix: dispersion map on non-square and off-centre IFU
 grids

---
 lenstronomy/GalKin/galkin.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/GalKin/galkin.py b/lenstronomy/GalKin/galkin.py
index 9352d0c..f622c7a 100644
--- a/lenstronomy/GalKin/galkin.py
+++ b/lenstronomy/GalKin/galkin.py
@@ -193,20 +193,19 @@ class Galkin(GalkinModel, GalkinObservation):
         mass_center_x, mass_center_y = self._extract_center(kwargs_mass)
 
         delta_x, delta_y = self._delta_pix_xy()
-        assert np.abs(delta_x) == np.abs(delta_y)
+        assert np.isclose(np.abs(delta_x), np.abs(delta_y))
 
         x_grid = self._aperture.x_grid
         y_grid = self._aperture.y_grid
 
-        new_delta_x = delta_x / supersampling_factor
-        new_delta_y = delta_y / supersampling_factor
         x_start = x_grid[0, 0] - delta_x / 2.0 * (1 - 1 / supersampling_factor)
         x_end = x_grid[0, -1] + delta_x / 2.0 * (1 - 1 / supersampling_factor)
         y_start = y_grid[0, 0] - delta_y / 2.0 * (1 - 1 / supersampling_factor)
         y_end = y_grid[-1, 0] + delta_y / 2.0 * (1 - 1 / supersampling_factor)
 
-        xs = np.arange(x_start, x_end * (1 + 1e-6), new_delta_x)
-        ys = np.arange(y_start, y_end * (1 + 1e-6), new_delta_y)
+        num_y, num_x = np.shape(x_grid)
+        xs = np.linspace(x_start, x_end, num_x * supersampling_factor)
+        ys = np.linspace(y_start, y_end, num_y * supersampling_factor)
 
         x_grid_supersampled, y_grid_supersmapled = np.meshgrid(xs, ys)
 
@@ -365,14 +364,14 @@ class Galkin(GalkinModel, GalkinObservation):
         else:
             sigma_IR_integrated = (
                 sigma2_IR_convolved.reshape(
-                    len(x_grid), supersampling_factor, len(y_grid), supersampling_factor
+                    x_grid.shape[0], supersampling_factor, x_grid.shape[1], supersampling_factor
                 )
                 .sum(3)
                 .sum(1)
             )
             IR_integrated = (
                 IR_convolved.reshape(
-                    len(x_grid), supersampling_factor, len(y_grid), supersampling_factor
+                    x_grid.shape[0], supersampling_factor, x_grid.shape[1], supersampling_factor
                 )
                 .sum(3)
                 .sum(1)
-- 
2.43.0


From e63f82b4eeb8e0fc7076bd7c3dcb896de0b886b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:59 +0000
Subject: [PATCH 112/175] fix: dispersion map on a grid does not reuse the
 interpolation of a previous model

---
 lenstronomy/GalKin/galkin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/GalKin/galkin.py b/lenstronomy/GalKin/galkin.py
index f622c7a..67104d9 100644
--- a/lenstronomy/GalKin/galkin.py
+++ b/lenstronomy/GalKin/galkin.py
@@ -378,6 +378,8 @@ class Galkin(GalkinModel, GalkinObservation):
             )
 
         sigma2_grid = sigma_IR_integrated / IR_integrated
+        # clear the cache (kinematics could be computed with a different model)
+        self.numerics.delete_cache()
 
         # apply unit conversion from arc seconds and deflections to physical velocity
         # dispersion in (km/s)
-- 
2.43.0


From 621a443efe3836b8406dc8cf399d6fb4e1b5f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:59 +0000
Subject: [PATCH 113/175] fix: analytic kinematics does not store derived
 quantities in the mass arguments of the user

---
 lenstronomy/GalKin/analytic_kinematics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/GalKin/analytic_kinematics.py b/lenstronomy/GalKin/analytic_kinematics.py
index ad46a12..04d85f3 100644
--- a/lenstronomy/GalKin/analytic_kinematics.py
+++ b/lenstronomy/GalKin/analytic_kinematics.py
@@ -185,13 +185,14 @@ class AnalyticKinematics(Anisotropy):
         """
         a = self._get_hernquist_scale_radius(kwargs_light)
 
-        if "rho0_r0_gamma" not in kwargs_mass:
-            kwargs_mass["rho0_r0_gamma"] = self._rho0_r0_gamma(
+        if "rho0_r0_gamma" in kwargs_mass:
+            rho0_r0_gamma = kwargs_mass["rho0_r0_gamma"]
+        else:
+            rho0_r0_gamma = self._rho0_r0_gamma(
                 kwargs_mass["theta_E"], kwargs_mass["gamma"]
             )
 
         gamma = kwargs_mass["gamma"]
-        rho0_r0_gamma = kwargs_mass["rho0_r0_gamma"]
         r_ani = kwargs_anisotropy["r_ani"]
 
         return a, gamma, rho0_r0_gamma, r_ani
-- 
2.43.0


From 68f65c64be1543eed29003d5bdd824bed7d55d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:59 +0000
Subject: [PATCH 114/175] fix: light cache of the analytic kinematics is
 deleted

---
 lenstronomy/GalKin/analytic_kinematics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/GalKin/analytic_kinematics.py b/lenstronomy/GalKin/analytic_kinematics.py
index 04d85f3..09f465d 100644
--- a/lenstronomy/GalKin/analytic_kinematics.py
+++ b/lenstronomy/GalKin/analytic_kinematics.py
@@ -365,3 +365,4 @@ class AnalyticKinematics(Anisotropy):
         """
         if hasattr(self, "_interp_sigma_r2"):
             del self._interp_sigma_r2
+        self.light_profile.delete_cache()
-- 
2.43.0


From bc4126f5b7ab12807340b9c5e5af199d5b0e6f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:59 +0000
Subject: [PATCH 115/175] fix: circularized light profile follows the light
 arguments

---
 lenstronomy/GalKin/light_profile.py | 31 ++++++++++++++---------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/lenstronomy/GalKin/light_profile.py b/lenstronomy/GalKin/light_profile.py
index d96f3a5..dd11ed1 100644
--- a/lenstronomy/GalKin/light_profile.py
+++ b/lenstronomy/GalKin/light_profile.py
@@ -105,22 +105,21 @@ class LightProfile(object):
         :return: circularized arguments
         """
         # TODO make sure averaging is done azimuthally
-        if not hasattr(self, "_kwargs_light_circularized"):
-            kwargs_list_copy = copy.deepcopy(kwargs_list)
-            kwargs_list_new = []
-            for kwargs in kwargs_list_copy:
-                if "e1" in kwargs:
-                    kwargs["e1"] = 0
-                if "e2" in kwargs:
-                    kwargs["e2"] = 0
-                kwargs_list_new.append(
-                    {
-                        k: v
-                        for k, v in kwargs.items()
-                        if k not in ["center_x", "center_y"]
-                    }
-                )
-            self._kwargs_light_circularized = kwargs_list_new
+        kwargs_list_copy = copy.deepcopy(kwargs_list)
+        kwargs_list_new = []
+        for kwargs in kwargs_list_copy:
+            if "e1" in kwargs:
+                kwargs["e1"] = 0
+            if "e2" in kwargs:
+                kwargs["e2"] = 0
+            kwargs_list_new.append(
+                {
+                    k: v
+                    for k, v in kwargs.items()
+                    if k not in ["center_x", "center_y"]
+                }
+            )
+        self._kwargs_light_circularized = kwargs_list_new
         return self._kwargs_light_circularized
 
     def _light_2d_finite_single(self, R, kwargs_list):
-- 
2.43.0


From 3b47a19b5079727eeaa84823790222e025d4beae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:59 +0000
Subject: [PATCH 116/175] fix: cache of the three-dimensional light
 distribution is deleted

---
 lenstronomy/GalKin/light_profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/GalKin/light_profile.py b/lenstronomy/GalKin/light_profile.py
index dd11ed1..166dfe7 100644
--- a/lenstronomy/GalKin/light_profile.py
+++ b/lenstronomy/GalKin/light_profile.py
@@ -292,6 +292,8 @@ class LightProfile(object):
         """
         if hasattr(self, "_light_cdf_log"):
             del self._light_cdf_log
+        if hasattr(self, "_light_3d_cdf_log"):
+            del self._light_3d_cdf_log
         if hasattr(self, "_light_cdf"):
             del self._light_cdf
         if hasattr(self, "_f_light_3d"):
-- 
2.43.0


From 41c19b03a019b5bc549a189314132fa52d3c3c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:59 +0000
Subject: [PATCH 117/175] fix: cylindrically aligned constant anisotropy: sign
 of the exponent

---
 lenstronomy/GalKin/anisotropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/GalKin/anisotropy.py b/lenstronomy/GalKin/anisotropy.py
index 7480676..e359e05 100644
--- a/lenstronomy/GalKin/anisotropy.py
+++ b/lenstronomy/GalKin/anisotropy.py
@@ -118,7 +118,7 @@ class Anisotropy(object):
                 def beta_fun(r, theta):
                     # angular variation
                     ratio = np.sqrt(1 - beta_const)
-                    beta = 1 - ratio ** (2 * np.cos(2 * theta))
+                    beta = 1 - ratio ** (-2 * np.cos(2 * theta))
                     beta_dtheta = (
                         -4
                         * np.log(ratio)
-- 
2.43.0


From 815a4215658b329b21a33b51b0ec80f6ef86da80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:13 +0000
Subject: [PATCH 118/175] fix: centre of the aperture in GalkinShells

---
 lenstronomy/GalKin/galkin_shells.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/GalKin/galkin_shells.py b/lenstronomy/GalKin/galkin_shells.py
index dbafd61..952bd7f 100644
--- a/lenstronomy/GalKin/galkin_shells.py
+++ b/lenstronomy/GalKin/galkin_shells.py
@@ -49,7 +49,11 @@ class GalkinShells(Galkin):
         x_grid, y_grid = util.make_grid(
             num_pix=self._num_pix, delta_pix=self._delta_pix
         )
-        self._r_grid = np.sqrt(x_grid**2 + y_grid**2)
+        # grid centred on the aperture, the galaxy is at the coordinate origin
+        center_ra = kwargs_aperture.get("center_ra", 0)
+        center_dec = kwargs_aperture.get("center_dec", 0)
+        self._r_aperture = np.sqrt(x_grid**2 + y_grid**2)
+        self._r_grid = np.sqrt((x_grid + center_ra) ** 2 + (y_grid + center_dec) ** 2)
 
     def dispersion_map(self, kwargs_mass, kwargs_light, kwargs_anisotropy, **kwargs):
         """
@@ -78,7 +82,7 @@ class GalkinShells(Galkin):
         r_min = self._r_bins[0]
         for r_max in self._r_bins[1:]:
             mask = mask_util.mask_shell(
-                self._r_grid, 0, center_x=0, center_y=0, r_in=r_min, r_out=r_max
+                self._r_aperture, 0, center_x=0, center_y=0, r_in=r_min, r_out=r_max
             )
             vel_disp = np.sum(I_R_sigma2_conv * mask) / np.sum(
                 I_R_conv * mask
-- 
2.43.0


From 96a9eb1d814a0599e9ce8987ec2a4f0c08b0ecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:34 +0000
Subject: [PATCH 119/175] fix: size of the PSF kernel grid does not depend on
 rounding errors

---
 lenstronomy/GalKin/galkin.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/lenstronomy/GalKin/galkin.py b/lenstronomy/GalKin/galkin.py
index 67104d9..56a8111 100644
--- a/lenstronomy/GalKin/galkin.py
+++ b/lenstronomy/GalKin/galkin.py
@@ -237,22 +237,14 @@ class Galkin(GalkinModel, GalkinObservation):
         if num_x % 2 == 0:
             num_x += 1
 
-        psf_x = np.arange(
-            -delta_x_sub * (num_x - 1) / 2,
-            delta_x_sub * (num_x + 1) / 2,
-            delta_x_sub,
-        )
+        psf_x = (np.arange(num_x) - (num_x - 1) / 2) * delta_x_sub
 
         delta_y_sub = np.abs(delta_y) / supersampling_factor
         num_y = int(round(2 * fwhm_factor * self._psf.fwhm / delta_y_sub + 0.5))
         if num_y % 2 == 0:
             num_y += 1
 
-        psf_y = np.arange(
-            -delta_y_sub * (num_y - 1) / 2,
-            delta_y_sub * (num_y + 1) / 2,
-            delta_y_sub,
-        )
+        psf_y = (np.arange(num_y) - (num_y - 1) / 2) * delta_y_sub
 
         psf_x_grid, psf_y_grid = np.meshgrid(psf_x, psf_y)
 
-- 
2.43.0


From f6d1c37f0d26dbc9a0e1d4b072cd0ddd892c6d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:30 +0000
Subject: [PATCH 120/175] fix: settings of the multi-Gaussian expansions are
 used in the kinematics

---
 lenstronomy/Analysis/kinematics_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/Analysis/kinematics_api.py b/lenstronomy/Analysis/kinematics_api.py
index a598bd4..ebc7653 100644
--- a/lenstronomy/Analysis/kinematics_api.py
+++ b/lenstronomy/Analysis/kinematics_api.py
@@ -421,6 +421,7 @@ class KinematicsAPI(object):
             theta_E=theta_E,
             model_kinematics_bool=self._lens_model_kinematics_bool,
             gamma=gamma,
+            kwargs_mge=self._kwargs_mge_mass,
             analytic_kinematics=self._analytic_kinematics,
         )
         light_profile_list, kwargs_light = self.kinematic_light_profile(
@@ -429,6 +430,7 @@ class KinematicsAPI(object):
             MGE_fit=self._MGE_light,
             model_kinematics_bool=self._light_model_kinematics_bool,
             Hernquist_approx=self._Hernquist_approx,
+            kwargs_mge=self._kwargs_mge_light,
             analytic_kinematics=self._analytic_kinematics,
         )
 
-- 
2.43.0


From d84685b3e21aa2e818fca6a33c0a789f7a5dccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:30 +0000
Subject: [PATCH 121/175] fix: multi-Gaussian expansion of a subset of the
 light profiles

---
 lenstronomy/Analysis/kinematics_api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lenstronomy/Analysis/kinematics_api.py b/lenstronomy/Analysis/kinematics_api.py
index ebc7653..d516c0b 100644
--- a/lenstronomy/Analysis/kinematics_api.py
+++ b/lenstronomy/Analysis/kinematics_api.py
@@ -791,6 +791,12 @@ class KinematicsAPI(object):
                 kwargs_light.append(kwargs_lens_light_i)
 
         if MGE_fit is True:
+            # only the profiles that are part of the kinematics
+            kwargs_lens_light = [
+                kwargs
+                for i, kwargs in enumerate(kwargs_lens_light)
+                if model_kinematics_bool[i] is True
+            ]
             MGE_light_fitter = MGELight(light_profile_list, kwargs_mge)
             amps, sigmas = MGE_light_fitter.mge_fit(kwargs_lens_light, r_eff)
             kwargs_light = [{"amp": amps, "sigma": sigmas}]
-- 
2.43.0


From ca8c43957cf753bea49c6146902fd881673883f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:30 +0000
Subject: [PATCH 122/175] fix: centre and multi-Gaussian expansion of the
 profiles that are part of the kinematics

---
 lenstronomy/Analysis/kinematics_api.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/Analysis/kinematics_api.py b/lenstronomy/Analysis/kinematics_api.py
index d516c0b..1c0a197 100644
--- a/lenstronomy/Analysis/kinematics_api.py
+++ b/lenstronomy/Analysis/kinematics_api.py
@@ -544,6 +544,7 @@ class KinematicsAPI(object):
             return None, {"theta_E": theta_E, "gamma": gamma}
         mass_profile_list = []
         kwargs_profile = []
+        kwargs_lens_mge = []
         self._black_hole_mass = 0.0
         if model_kinematics_bool is None:
             model_kinematics_bool = [True] * len(kwargs_lens)
@@ -560,6 +561,7 @@ class KinematicsAPI(object):
                     self._black_hole_mass += self.lensCosmo.mass_in_theta_E(theta_E_i)
                     continue
                 mass_profile_list.append(lens_model)
+                kwargs_lens_mge.append(kwargs_lens[i])
                 if lens_model in ["INTERPOL", "INTERPOL_SCLAED"]:
                     center_x_i, center_y_i = self._lensMassProfile.convergence_peak(
                         kwargs_lens,
@@ -587,12 +589,6 @@ class KinematicsAPI(object):
                 kwargs_profile.append(kwargs_lens_i)
 
         if MGE_fit is True:
-            kwargs_lens_mge = [
-                kwargs_lens[i]
-                for i, lens_model in enumerate(self._lens_model_list)
-                if model_kinematics_bool[i]
-                and lens_model not in ["POINT_MASS", "POINT_MASS_LOG_SCALED"]
-            ]
             MGE_mass_fitter = MGEMass(mass_profile_list, kwargs_mge)
             amps, sigmas = MGE_mass_fitter.mge_fit(kwargs_lens_mge, theta_E)
             kwargs_profile = [{"amp": amps, "sigma": sigmas}]
@@ -601,7 +597,7 @@ class KinematicsAPI(object):
             else:
                 mass_profile_list = ["MULTI_GAUSSIAN_ELLIPSE_KAPPA"]
                 kwargs_profile = self._copy_ellip(kwargs_profile, kwargs_lens_mge)
-        kwargs_profile = self._copy_centers(kwargs_profile, kwargs_lens)
+        kwargs_profile = self._copy_centers(kwargs_profile, kwargs_lens_mge)
         return mass_profile_list, kwargs_profile
 
     def kinematic_light_profile(
-- 
2.43.0


From d9b4045ca556bde291a0093eac1f5324adfce167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:11 +0000
Subject: [PATCH 123/175] fix: convergence and deflection of NFW next to the
 scale radius

---
 lenstronomy/LensModel/Profiles/nfw.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/nfw.py b/lenstronomy/LensModel/Profiles/nfw.py
index 8cfd31d..79da05e 100644
--- a/lenstronomy/LensModel/Profiles/nfw.py
+++ b/lenstronomy/LensModel/Profiles/nfw.py
@@ -334,7 +334,10 @@ class NFW(LensProfileBase):
         :type X: float >0
         """
         if isinstance(X, int) or isinstance(X, float):
-            if X < 1 and X > 0:
+            if abs(X - 1) < 1e-5:
+                # expansion around X=1, where the expressions below cancel
+                a = 1.0 / 3 - 2.0 / 5 * (X - 1)
+            elif X < 1 and X > 0:
                 a = (
                     1
                     / (X**2 - 1)
@@ -343,8 +346,6 @@ class NFW(LensProfileBase):
                         - 2 / np.sqrt(1 - X**2) * np.arctanh(np.sqrt((1 - X) / (1 + X)))
                     )
                 )
-            elif X == 1:
-                a = 1.0 / 3
             elif X > 1:
                 a = (
                     1
@@ -371,14 +372,15 @@ class NFW(LensProfileBase):
                 * (1 - 2 / np.sqrt(1 - x**2) * np.arctanh(np.sqrt((1 - x) / (1 + x))))
             )
 
-            a[X == 1] = 1.0 / 3.0
-
             x = X[X > 1]
             a[X > 1] = (
                 1
                 / (x**2 - 1)
                 * (1 - 2 / np.sqrt(x**2 - 1) * np.arctan(np.sqrt((x - 1) / (1 + x))))
             )
+            # expansion around X=1, where the expressions above cancel
+            near_1 = np.abs(X - 1) < 1e-5
+            a[near_1] = 1.0 / 3 - 2.0 / 5 * (X[near_1] - 1)
             # a[X>y] = 0
 
             c = 0.0000001
@@ -422,11 +424,11 @@ class NFW(LensProfileBase):
         """
         c = 0.000001
         if isinstance(X, int) or isinstance(X, float):
-            if X < 1:
+            if abs(X - 1) < 1e-5:
+                a = 1 + np.log(1.0 / 2.0) + (X - 1) / 3.0
+            elif X < 1:
                 x = max(c, X)
                 a = np.log(x / 2.0) + 1 / np.sqrt(1 - x**2) * np.arccosh(1.0 / x)
-            elif X == 1:
-                a = 1 + np.log(1.0 / 2.0)
             else:  # X > 1:
                 a = np.log(X / 2) + 1 / np.sqrt(X**2 - 1) * np.arccos(1.0 / X)
 
@@ -435,9 +437,10 @@ class NFW(LensProfileBase):
             X[X <= c] = c
             x = X[X < 1]
             a[X < 1] = np.log(x / 2.0) + 1 / np.sqrt(1 - x**2) * np.arccosh(1.0 / x)
-            a[X == 1] = 1 + np.log(1.0 / 2.0)
             x = X[X > 1]
             a[X > 1] = np.log(x / 2) + 1 / np.sqrt(x**2 - 1) * np.arccos(1.0 / x)
+            near_1 = np.abs(X - 1) < 1e-5
+            a[near_1] = 1 + np.log(1.0 / 2.0) + (X[near_1] - 1) / 3.0
         return a
 
     def h_(self, X):
-- 
2.43.0


From efa0b4012ec774a0af465760b86f542a266264af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:11 +0000
Subject: [PATCH 124/175] fix: convergence of TNFW next to the scale radius

---
 lenstronomy/LensModel/Profiles/tnfw.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/tnfw.py b/lenstronomy/LensModel/Profiles/tnfw.py
index 8c3e130..4818fb5 100644
--- a/lenstronomy/LensModel/Profiles/tnfw.py
+++ b/lenstronomy/LensModel/Profiles/tnfw.py
@@ -317,12 +317,15 @@ class TNFW(LensProfileBase):
         if isinstance(X, np.ndarray):
             # b = (t2 + 1) * (X ** 2 - 1) ** -1 * (1 - _F)
             b = np.ones_like(X)
-            b[X == 1] = (t2 + 1) * 1.0 / 3
-            b[X != 1] = (t2 + 1) * (X[X != 1] ** 2 - 1) ** -1 * (1 - _F[X != 1])
+            # expansion around X=1, where the numerator and denominator cancel
+            near_1 = np.abs(X - 1) < 1e-5
+            b[near_1] = (t2 + 1) * (1.0 / 3 - 2.0 / 5 * (X[near_1] - 1))
+            far = ~near_1
+            b[far] = (t2 + 1) * (X[far] ** 2 - 1) ** -1 * (1 - _F[far])
 
         elif isinstance(X, float) or isinstance(X, int):
-            if X == 1:
-                b = (t2 + 1) * 1.0 / 3
+            if abs(X - 1) < 1e-5:
+                b = (t2 + 1) * (1.0 / 3 - 2.0 / 5 * (X - 1))
             else:
                 b = (t2 + 1) * (X**2 - 1) ** -1 * (1 - _F)
         else:
-- 
2.43.0


From a682829ce1e9070568416b6ace9fe1bcb7a9b568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:11 +0000
Subject: [PATCH 125/175] fix: surface density and deflection of Hernquist next
 to the scale radius

---
 lenstronomy/LensModel/Profiles/hernquist.py | 24 ++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/hernquist.py b/lenstronomy/LensModel/Profiles/hernquist.py
index f4310fa..71eb3d2 100644
--- a/lenstronomy/LensModel/Profiles/hernquist.py
+++ b/lenstronomy/LensModel/Profiles/hernquist.py
@@ -86,13 +86,11 @@ class Hernquist(LensProfileBase):
         r = np.sqrt(x_**2 + y_**2)
         X = r / Rs
         sigma0 = self.rho2sigma(rho0, Rs)
-        if isinstance(X, int) or isinstance(X, float):
-            if X == 1:
-                X = 1.000001
-        else:
-            X[X == 1] = 1.000001
-        sigma = sigma0 / (X**2 - 1) ** 2 * (-3 + (2 + X**2) * self._F(X))
-        return sigma
+        # expansion around X=1, where the numerator and denominator cancel
+        near_1 = np.abs(X - 1) < 1e-4
+        X_ = np.where(near_1, 2.0, X)
+        f = (-3 + (2 + X_**2) * self._F(X_)) / (X_**2 - 1) ** 2
+        return sigma0 * np.where(near_1, 4.0 / 15 - 16.0 / 35 * (X - 1), f)
 
     @staticmethod
     def mass_3d(r, rho0, Rs):
@@ -199,15 +197,17 @@ class Hernquist(LensProfileBase):
         X = r / Rs
         if isinstance(r, int) or isinstance(r, float):
             # f = (1 - self._F(X)) / (X ** 2 - 1)  # this expression is 1/3 for X=1
-            if X == 1:
-                f = 1.0 / 3
+            if abs(X - 1) < 1e-5:
+                f = 1.0 / 3 - 2.0 / 5 * (X - 1)
             else:
                 f = (1 - self._F(X)) / (X**2 - 1)
         else:
             f = np.empty_like(X)
-            f[X == 1] = 1.0 / 3
-            X_ = X[X != 1]
-            f[X != 1] = (1 - self._F(X_)) / (X_**2 - 1)
+            # expansion around X=1, where the numerator and denominator cancel
+            near_1 = np.abs(X - 1) < 1e-5
+            f[near_1] = 1.0 / 3 - 2.0 / 5 * (X[near_1] - 1)
+            X_ = X[~near_1]
+            f[~near_1] = (1 - self._F(X_)) / (X_**2 - 1)
         alpha_r = 2 * sigma0 * Rs * f * X
         f_x = alpha_r * x_ / r
         f_y = alpha_r * y_ / r
-- 
2.43.0


From 0b098021a55955824954cb0b51b23e8137f07faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:07 +0000
Subject: [PATCH 126/175] fix: MST-invariant differential is evaluated around
 the centre of the lens

---
 lenstronomy/Analysis/lens_profile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Analysis/lens_profile.py b/lenstronomy/Analysis/lens_profile.py
index 1bbfd22..97994ca 100644
--- a/lenstronomy/Analysis/lens_profile.py
+++ b/lenstronomy/Analysis/lens_profile.py
@@ -261,6 +261,7 @@ class LensProfileAnalysis(object):
             kwargs_lens, center_x, center_y
         )
         x, y = util.points_on_circle(radius, num_points)
+        x, y = x + center_x, y + center_y
         ext = LensModelExtensions(lensModel=self._lens_model)
         (
             lambda_rad,
-- 
2.43.0


From aded5714316f43607aa207bf2c31e0d30e52ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:07 +0000
Subject: [PATCH 127/175] fix: eigenvectors at integer coordinates are not
 truncated

---
 lenstronomy/LensModel/lens_model_extensions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lenstronomy/LensModel/lens_model_extensions.py b/lenstronomy/LensModel/lens_model_extensions.py
index ff8d213..edac97a 100644
--- a/lenstronomy/LensModel/lens_model_extensions.py
+++ b/lenstronomy/LensModel/lens_model_extensions.py
@@ -541,10 +541,10 @@ class LensModelExtensions(object):
             w1, w2, v11, v12, v21, v22 = (
                 np.empty(len(x), dtype=float),
                 np.empty(len(x), dtype=float),
-                np.empty_like(x),
-                np.empty_like(x),
-                np.empty_like(x),
-                np.empty_like(x),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
             )
             for i in range(len(x)):
                 A = np.array([[1 - f_xx[i], f_xy[i]], [f_yx[i], 1 - f_yy[i]]])
@@ -605,10 +605,10 @@ class LensModelExtensions(object):
             lambda_rad, lambda_tan, v1_rad, v2_rad, v1_tan, v2_tan = (
                 np.empty(len(x), dtype=float),
                 np.empty(len(x), dtype=float),
-                np.empty_like(x),
-                np.empty_like(x),
-                np.empty_like(x),
-                np.empty_like(x),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
             )
             for i in range(len(x)):
                 if (
-- 
2.43.0


From 32e67d4497ffb9b00d3abe6dfaeb3f297a573383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:07 +0000
Subject: [PATCH 128/175] fix: finite magnifications at integer coordinates are
 not truncated

---
 lenstronomy/LensModel/lens_model_extensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/lens_model_extensions.py b/lenstronomy/LensModel/lens_model_extensions.py
index edac97a..48198e0 100644
--- a/lenstronomy/LensModel/lens_model_extensions.py
+++ b/lenstronomy/LensModel/lens_model_extensions.py
@@ -239,7 +239,7 @@ class LensModelExtensions(object):
         :return: numerically computed brightness of the sources
         """
 
-        mag_finite = np.zeros_like(x_pos)
+        mag_finite = np.zeros_like(x_pos, dtype=float)
         delta_pix = float(window_size) / grid_number
         from lenstronomy.LightModel.Profiles.gaussian import Gaussian
 
-- 
2.43.0


From 847f5af40667210db8cb31abb7b0d41372d5d748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:07 +0000
Subject: [PATCH 129/175] fix: curvature of a finite arc is estimated around
 its position

---
 lenstronomy/LensModel/lens_model_extensions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/lens_model_extensions.py b/lenstronomy/LensModel/lens_model_extensions.py
index 48198e0..a6ffe6e 100644
--- a/lenstronomy/LensModel/lens_model_extensions.py
+++ b/lenstronomy/LensModel/lens_model_extensions.py
@@ -901,6 +901,7 @@ class LensModelExtensions(object):
 
         # make circle of points around position of interest
         x_c, y_c = util.points_on_circle(radius=dr, num_points=20, connect_ends=False)
+        x_c, y_c = x_c + x, y_c + y
 
         c_x_list, c_y_list = [], []
         # loop through curved arc estimate and compute curvature centroid
-- 
2.43.0


From 50c160dda9c0684b469e3b995978415084c4e16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:07 +0000
Subject: [PATCH 130/175] fix: half light radius leaves the given map unchanged

---
 lenstronomy/Util/analysis_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/analysis_util.py b/lenstronomy/Util/analysis_util.py
index 204a2ea..693a68e 100644
--- a/lenstronomy/Util/analysis_util.py
+++ b/lenstronomy/Util/analysis_util.py
@@ -19,7 +19,7 @@ def half_light_radius(lens_light, x_grid, y_grid, center_x=0, center_y=0):
     :param center_y: center of light
     :return:
     """
-    lens_light[lens_light < 0] = 0
+    lens_light = np.maximum(lens_light, 0)
     total_flux_2 = np.sum(lens_light) / 2.0
     r_max = np.max(np.sqrt((x_grid - center_x) ** 2 + (y_grid - center_y) ** 2))
     for i in range(1000):
-- 
2.43.0


From 086c64008629f54a28c6473fada035a1e7bb5f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:07 +0000
Subject: [PATCH 131/175] fix: centre of the azimuthal average of a rectangular
 image

---
 lenstronomy/Util/analysis_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Util/analysis_util.py b/lenstronomy/Util/analysis_util.py
index 693a68e..c5849be 100644
--- a/lenstronomy/Util/analysis_util.py
+++ b/lenstronomy/Util/analysis_util.py
@@ -69,8 +69,8 @@ def azimuthal_average(image, center=None):
     # Calculate the indices from the image
     y, x = np.indices(image.shape)
 
-    if not center:
-        center = np.array([(x.max() - x.min()) / 2.0, (x.max() - x.min()) / 2.0])
+    if center is None:
+        center = np.array([(x.max() - x.min()) / 2.0, (y.max() - y.min()) / 2.0])
 
     r = np.hypot(x - center[0], y - center[1])
 
-- 
2.43.0


From ba7692bf5125f02a6bc7df518c1d2d2758cc03fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 132/175] fix: curved arc with constant stretch at a single
 position

---
 lenstronomy/LensModel/Profiles/curved_arc_const.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/curved_arc_const.py b/lenstronomy/LensModel/Profiles/curved_arc_const.py
index d0aee8e..adebc50 100644
--- a/lenstronomy/LensModel/Profiles/curved_arc_const.py
+++ b/lenstronomy/LensModel/Profiles/curved_arc_const.py
@@ -230,7 +230,7 @@ class CurvedArcConst(LensProfileBase):
         # evaluate
 
         # move x-coordinate to circle intercept with x-axis
-        if isinstance(x, int) or isinstance(x, float):
+        if np.isscalar(y__):
             if abs(y__) > r:
                 f__x, f__y = 0, 0
             else:
-- 
2.43.0


From 7abb38a50e2e20166859574073c2fd2146ff1fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:44 +0000
Subject: [PATCH 133/175] fix: FittingSequence updates its own bands instead of
 the lists of the user

---
 lenstronomy/Workflow/fitting_sequence.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index d383dcf..7633b01 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -56,8 +56,14 @@ class FittingSequence(object):
          possible
         :param verbose: bool, if True prints temporary results and indicators of the fitting process
         """
-        self.kwargs_data_joint = kwargs_data_joint
-        self.multi_band_list = kwargs_data_joint.get("multi_band_list", [])
+        # the bands are updated by the PSF iteration, the alignment and the flux
+        # calibration; the lists of the user remain as they are
+        self.kwargs_data_joint = dict(kwargs_data_joint)
+        self.multi_band_list = [
+            list(band) for band in kwargs_data_joint.get("multi_band_list", [])
+        ]
+        if "multi_band_list" in self.kwargs_data_joint:
+            self.kwargs_data_joint["multi_band_list"] = self.multi_band_list
         self.multi_band_type = kwargs_data_joint.get("multi_band_type", "single-band")
         self._verbose = verbose
         self._mpi = mpi
-- 
2.43.0


From bd7ec0478d704b941624abc5de72067ae335bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:44 +0000
Subject: [PATCH 134/175] fix: the flux calibration is applied to the
 likelihood of the following steps

---
 lenstronomy/Workflow/fitting_sequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index 7633b01..ee6053c 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -752,6 +752,7 @@ class FittingSequence(object):
             scaling_upper_limit=scaling_upper_limit,
         )
         self.multi_band_list = multi_band_list
+        self.kwargs_data_joint["multi_band_list"] = multi_band_list
         return 0
 
     def update_settings(
-- 
2.43.0


From 0dfc85a81dae1f1fb790a7152cc4ae4dd316c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:44 +0000
Subject: [PATCH 135/175] fix: alignment and flux calibration do not modify
 bands that were passed or returned

---
 lenstronomy/Workflow/alignment_matching.py | 4 ++--
 lenstronomy/Workflow/flux_calibration.py   | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Workflow/alignment_matching.py b/lenstronomy/Workflow/alignment_matching.py
index b96a9c5..303d007 100644
--- a/lenstronomy/Workflow/alignment_matching.py
+++ b/lenstronomy/Workflow/alignment_matching.py
@@ -153,7 +153,7 @@ class AlignmentLikelihood(object):
         :return: updated multi_band_list
         """
         kwargs_data = self.update_data(args)
-        multi_band_list = self._multi_band_list
+        multi_band_list = [list(band) for band in self._multi_band_list]
         multi_band_list[self._band_index][0] = kwargs_data
         return multi_band_list
 
@@ -163,7 +163,7 @@ class AlignmentLikelihood(object):
         :return:
         """
         k = 0
-        kwargs_data = self._kwargs_data_shifted
+        kwargs_data = dict(self._kwargs_data_shifted)
         if self._align_offset:
             kwargs_data["ra_shift"] = args[k]
             kwargs_data["dec_shift"] = args[k + 1]
diff --git a/lenstronomy/Workflow/flux_calibration.py b/lenstronomy/Workflow/flux_calibration.py
index 5e08b01..cd84eb1 100644
--- a/lenstronomy/Workflow/flux_calibration.py
+++ b/lenstronomy/Workflow/flux_calibration.py
@@ -136,12 +136,15 @@ class CalibrationLikelihood(object):
         :return: updated multi_band_list
         """
         k = 0
-        for i, band in enumerate(self.multi_band_list):
+        multi_band_list = [
+            [dict(band[0])] + list(band[1:]) for band in self.multi_band_list
+        ]
+        for i, band in enumerate(multi_band_list):
             if self._calibrate_bands[i]:
                 kwargs_data = band[0]
                 kwargs_data["flux_scaling"] = args[k]
                 k += 1
-        return self.multi_band_list
+        return multi_band_list
 
     def get_args(self, multi_band_list):
         """
-- 
2.43.0


From 1eb479a634b50fd0143c810744d065da613bfd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:44 +0000
Subject: [PATCH 136/175] fix: PSF cutouts with masked pixels carry the flux of
 the unmasked part of the kernel

---
 lenstronomy/Workflow/psf_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/psf_fitting.py b/lenstronomy/Workflow/psf_fitting.py
index 9aae293..690bbff 100644
--- a/lenstronomy/Workflow/psf_fitting.py
+++ b/lenstronomy/Workflow/psf_fitting.py
@@ -718,7 +718,7 @@ class PsfFitting(object):
         # norm_masked = np.sum(kernel_shifted[mask_i == 0])
         norm_unmasked = np.sum(kernel_shifted[mask_cutout == 1])
         # normalize star within the unmasked region to the norm of the initial kernel of the same region
-        star_cutout /= np.sum(star_cutout[mask_cutout == 1]) * norm_unmasked
+        star_cutout *= norm_unmasked / np.sum(star_cutout[mask_cutout == 1])
         # replace mask with shifted initial kernel (+2 size)
         star_cutout[mask_cutout == 0] = kernel_shifted[mask_cutout == 0]
         star_cutout[star_cutout < 0] = 0
-- 
2.43.0


From a8f2e2aff458a2409cb8190d64e1c5b773a93916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:44 +0000
Subject: [PATCH 137/175] fix: the PSF iteration does not reuse image positions
 of an earlier lens model

---
 lenstronomy/Workflow/psf_fitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/psf_fitting.py b/lenstronomy/Workflow/psf_fitting.py
index 690bbff..d2f855d 100644
--- a/lenstronomy/Workflow/psf_fitting.py
+++ b/lenstronomy/Workflow/psf_fitting.py
@@ -98,7 +98,8 @@ class PsfFitting(object):
          passed to update_psf() method
         :return: keyword argument of PSF constructor for PSF() class with updated PSF
         """
-        self._image_model_class.PointSource.set_save_cache(True)
+        # the image positions are only kept during this call
+        self._image_model_class.reset_point_source_cache(cache=True)
         if "kernel_point_source_init" not in kwargs_psf:
             kernel_point_source_init = copy.deepcopy(kwargs_psf["kernel_point_source"])
         else:
@@ -156,6 +157,7 @@ class PsfFitting(object):
         else:
             kwargs_psf_final["psf_variance_map"] = error_map_final
         kwargs_psf_final["kernel_point_source_init"] = kernel_point_source_init
+        self._image_model_class.reset_point_source_cache(cache=False)
         return kwargs_psf_final
 
     def update_psf(
-- 
2.43.0


From f510d93dabd9c294f312887257a0da8915ab5b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:34 +0000
Subject: [PATCH 138/175] fix: PSF error map leaves out neighbouring point
 sources at their angular position

---
 lenstronomy/Workflow/psf_fitting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/psf_fitting.py b/lenstronomy/Workflow/psf_fitting.py
index d2f855d..a63a54d 100644
--- a/lenstronomy/Workflow/psf_fitting.py
+++ b/lenstronomy/Workflow/psf_fitting.py
@@ -937,6 +937,9 @@ class PsfFitting(object):
         ra_grid = util.image2array(ra_grid)
         dec_grid = util.image2array(dec_grid)
         mask = self._image_model_class.likelihood_mask
+        ra_pos, dec_pos = self._image_model_class.Data.map_pix2coord(
+            np.asarray(x_pos), np.asarray(y_pos)
+        )
         for i, star in enumerate(star_cutout_list):
             x, y, amp_i = x_pos[i], y_pos[i], amp[i]
             # shift kernel
@@ -955,7 +958,7 @@ class PsfFitting(object):
             )
             # block neighbor points in error estimate
             mask_point_source = self.mask_point_source(
-                x_pos, y_pos, ra_grid, dec_grid, radius=block_center_neighbour, i=i
+                ra_pos, dec_pos, ra_grid, dec_grid, radius=block_center_neighbour, i=i
             )
             mask_i = mask * mask_point_source
             mask_i = kernel_util.cutout_source(
-- 
2.43.0


From 6f3c1e85bdb6c48d7967982c1f02402dc5796299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:08 +0000
Subject: [PATCH 139/175] fix: patches are placed on the nearest pixel of the
 joint frame

---
 lenstronomy/Analysis/multi_patch_reconstruction.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/Analysis/multi_patch_reconstruction.py b/lenstronomy/Analysis/multi_patch_reconstruction.py
index 4fb795c..5fcdd15 100644
--- a/lenstronomy/Analysis/multi_patch_reconstruction.py
+++ b/lenstronomy/Analysis/multi_patch_reconstruction.py
@@ -100,8 +100,8 @@ class MultiPatchReconstruction(MultiBandImageReconstruction):
             # evaluate pixel of zero point with the base coordinate system
             ra0, dec0 = data_class_i.radec_at_xy_0
             x_min, y_min = pixel_grid.map_coord2pix(ra0, dec0)
-            y_min = int(y_min)
-            x_min = int(x_min)
+            y_min = int(np.round(y_min))
+            x_min = int(np.round(x_min))
             nx_i, ny_i = data_class_i.num_pixel_axes
             nx, ny = _update_frame_size(nx, ny, x_min, y_min, nx_i, ny_i)
             # select minimum in x- and y-axis
@@ -134,8 +134,8 @@ class MultiPatchReconstruction(MultiBandImageReconstruction):
                 # evaluate pixel of zero point with the base coordinate system
                 ra0, dec0 = data_class_i.radec_at_xy_0
                 x_min, y_min = self._pixel_grid_joint.map_coord2pix(ra0, dec0)
-                y_min = int(y_min)
-                x_min = int(x_min)
+                y_min = int(np.round(y_min))
+                x_min = int(np.round(x_min))
                 nx_i, ny_i = data_class_i.num_pixel_axes
                 image_joint[
                     int(y_min) : int(y_min + ny_i), int(x_min) : int(x_min + nx_i)
@@ -173,8 +173,8 @@ class MultiPatchReconstruction(MultiBandImageReconstruction):
                 # evaluate pixel of zero point with the base coordinate system
                 ra0, dec0 = data_class_i.radec_at_xy_0
                 x_min, y_min = self._pixel_grid_joint.map_coord2pix(ra0, dec0)
-                y_min = int(y_min)
-                x_min = int(x_min)
+                y_min = int(np.round(y_min))
+                x_min = int(np.round(x_min))
                 nx_i, ny_i = data_class_i.num_pixel_axes
                 kappa_joint[
                     int(y_min) : int(y_min + ny_i), int(x_min) : int(x_min + nx_i)
-- 
2.43.0


From 8ff91dfb263b98f08d4e113fec6540d390938deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:08 +0000
Subject: [PATCH 140/175] fix: the joint frame covers patches that extend
 beyond both sides of the earlier ones

---
 lenstronomy/Analysis/multi_patch_reconstruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Analysis/multi_patch_reconstruction.py b/lenstronomy/Analysis/multi_patch_reconstruction.py
index 5fcdd15..d7a95e1 100644
--- a/lenstronomy/Analysis/multi_patch_reconstruction.py
+++ b/lenstronomy/Analysis/multi_patch_reconstruction.py
@@ -250,11 +250,11 @@ def _update_frame_size(nx, ny, x_min, y_min, nx_i, ny_i):
     :return:
     """
     if x_min < 0:
-        nx += int(abs(x_min))
+        nx = np.maximum(nx + int(abs(x_min)), int(nx_i))
     else:
         nx = np.maximum(nx, int(x_min) + int(nx_i))
     if y_min < 0:
-        ny += int(abs(y_min))
+        ny = np.maximum(ny + int(abs(y_min)), int(ny_i))
     else:
         ny = np.maximum(ny, int(y_min) + int(ny_i))
     return nx, ny
-- 
2.43.0


From 8d6fde390bdda1dca80d3c02be4e6f9b803e4c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:08 +0000
Subject: [PATCH 141/175] fix: the image reconstruction does not overwrite the
 parameters of the user

---
 lenstronomy/Analysis/image_reconstruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Analysis/image_reconstruction.py b/lenstronomy/Analysis/image_reconstruction.py
index d0c905e..011f5a6 100644
--- a/lenstronomy/Analysis/image_reconstruction.py
+++ b/lenstronomy/Analysis/image_reconstruction.py
@@ -59,8 +59,9 @@ class MultiBandImageReconstruction(object):
         linear_prior = kwargs_likelihood.get("linear_prior", None)
         bands_compute = kwargs_likelihood.get("bands_compute", None)
         # leave out the tracer_source arguments as they should not be passed to linear inversion routines
+        # (copied, as the linear amplitudes are updated in the reconstruction)
         kwargs_params = {
-            key: value
+            key: copy.deepcopy(value)
             for key, value in kwargs_params.items()
             if key != "kwargs_tracer_source"
         }
-- 
2.43.0


From a92ea0276b971807c23264500bd8e9567f18b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:57 +0000
Subject: [PATCH 142/175] fix: instrument presets do not share their settings
 between instances

---
 .../SimulationAPI/ObservationConfig/DES.py        | 11 ++++++-----
 .../SimulationAPI/ObservationConfig/HST.py        |  5 +++--
 .../SimulationAPI/ObservationConfig/JWST.py       | 13 +++++++------
 .../SimulationAPI/ObservationConfig/Roman.py      | 15 ++++++++-------
 .../SimulationAPI/ObservationConfig/ZTF.py        |  7 ++++---
 5 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/lenstronomy/SimulationAPI/ObservationConfig/DES.py b/lenstronomy/SimulationAPI/ObservationConfig/DES.py
index 6437d68..1432503 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/DES.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/DES.py
@@ -6,6 +6,7 @@ for list of
 sources.
 """
 
+import copy
 import lenstronomy.Util.util as util
 
 __all__ = ["DES"]
@@ -74,15 +75,15 @@ class DES(object):
         :param coadd_years: int, number of years corresponding to num_exposures in obs dict. Currently supported: 1-6.
         """
         if band == "g":
-            self.obs = g_band_obs
+            self.obs = copy.deepcopy(g_band_obs)
         elif band == "r":
-            self.obs = r_band_obs
+            self.obs = copy.deepcopy(r_band_obs)
         elif band == "i":
-            self.obs = i_band_obs
+            self.obs = copy.deepcopy(i_band_obs)
         elif band == "z":
-            self.obs = z_band_obs
+            self.obs = copy.deepcopy(z_band_obs)
         elif band == "Y":
-            self.obs = Y_band_obs
+            self.obs = copy.deepcopy(Y_band_obs)
         else:
             raise ValueError(
                 "band %s not supported! Choose 'g', 'r', 'i', 'z', or 'Y'." % band
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/HST.py b/lenstronomy/SimulationAPI/ObservationConfig/HST.py
index 05d3857..3db5ca7 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/HST.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/HST.py
@@ -6,6 +6,7 @@ for list of
 sources.
 """
 
+import copy
 import lenstronomy.Util.util as util
 
 __all__ = ["HST"]
@@ -52,9 +53,9 @@ class HST(object):
         """
 
         if band == "TDLMC_F160W":
-            self.obs = TDLMC_F160W_band_obs
+            self.obs = copy.deepcopy(TDLMC_F160W_band_obs)
         elif band == "WFC3_F160W" or band == "F160W":
-            self.obs = WFC3_F160W_band_obs
+            self.obs = copy.deepcopy(WFC3_F160W_band_obs)
 
         else:
             raise ValueError(
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/JWST.py b/lenstronomy/SimulationAPI/ObservationConfig/JWST.py
index fb83894..e206fbc 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/JWST.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/JWST.py
@@ -4,6 +4,7 @@ ZP can be found here : https://jwst-docs.stsci.edu/files/182256933/182256934/1/1
 Sky Brightness needs to be derived from the ETC
 """
 
+import copy
 import lenstronomy.Util.util as util
 
 __all__ = ["JWST"]
@@ -86,22 +87,22 @@ class JWST(object):
         """
 
         if band == "F200W":
-            self.obs = NIRCAM_F200W_band_obs
+            self.obs = copy.deepcopy(NIRCAM_F200W_band_obs)
             self.arm = "short"
         elif band == "F356W":
-            self.obs = NIRCAM_F356W_band_obs
+            self.obs = copy.deepcopy(NIRCAM_F356W_band_obs)
             self.arm = "long"
         elif band == "F115W":
-            self.obs = NIRCAM_F115W_band_obs
+            self.obs = copy.deepcopy(NIRCAM_F115W_band_obs)
             self.arm = "short"
         elif band == "F150W":
-            self.obs = NIRCAM_F150W_band_obs
+            self.obs = copy.deepcopy(NIRCAM_F150W_band_obs)
             self.arm = "short"
         elif band == "F277W":
-            self.obs = NIRCAM_F277W_band_obs
+            self.obs = copy.deepcopy(NIRCAM_F277W_band_obs)
             self.arm = "long"
         elif band == "F444W":
-            self.obs = NIRCAM_F444W_band_obs
+            self.obs = copy.deepcopy(NIRCAM_F444W_band_obs)
             self.arm = "long"
         else:
             raise ValueError("band %s not supported!" % band)
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/Roman.py b/lenstronomy/SimulationAPI/ObservationConfig/Roman.py
index 765d9d6..b5ec0e0 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/Roman.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/Roman.py
@@ -1,6 +1,7 @@
 # %%
 """Provisional Roman instrument and observational settings."""
 
+import copy
 import lenstronomy.Util.util as util
 import os
 import astropy.io.fits as pyfits
@@ -78,19 +79,19 @@ class Roman(object):
         """
 
         if band == "F062":
-            self.obs = F062_band_obs
+            self.obs = copy.deepcopy(F062_band_obs)
         elif band == "F087":
-            self.obs = F087_band_obs
+            self.obs = copy.deepcopy(F087_band_obs)
         elif band == "F106":
-            self.obs = F106_band_obs
+            self.obs = copy.deepcopy(F106_band_obs)
         elif band == "F129":
-            self.obs = F129_band_obs
+            self.obs = copy.deepcopy(F129_band_obs)
         elif band == "F158":
-            self.obs = F158_band_obs
+            self.obs = copy.deepcopy(F158_band_obs)
         elif band == "F184":
-            self.obs = F184_band_obs
+            self.obs = copy.deepcopy(F184_band_obs)
         elif band == "F146":
-            self.obs = F146_band_obs
+            self.obs = copy.deepcopy(F146_band_obs)
         else:
             raise ValueError(
                 "band %s not supported! Choose 'F062', 'F087', 'F106', 'F129', 'F158' , 'F184' or 'F146'"
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py b/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py
index 954125a..62737dd 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py
@@ -1,5 +1,6 @@
 # Conditions for the ZTF survey
 
+import copy
 import lenstronomy.Util.util as util
 
 __all__ = ["ZTF"]
@@ -70,11 +71,11 @@ class ZTF(object):
         :param coadd_years: int, number of years corresponding to num_exposures in obs dict. Currently supported: 1-3.
         """
         if band == "g":
-            self.obs = g_band_obs
+            self.obs = copy.deepcopy(g_band_obs)
         elif band == "r":
-            self.obs = r_band_obs
+            self.obs = copy.deepcopy(r_band_obs)
         elif band == "i":
-            self.obs = i_band_obs
+            self.obs = copy.deepcopy(i_band_obs)
         else:
             raise ValueError("band %s not supported! Choose 'g', 'r', or 'i'." % band)
 
-- 
2.43.0


From de0a39f2ac59b4a47d3263682e31324934d4c7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:09 +0000
Subject: [PATCH 143/175] fix: rebin_image merges the requested number of
 pixels and leaves its input unchanged

---
 lenstronomy/Util/image_util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Util/image_util.py b/lenstronomy/Util/image_util.py
index 1983e27..da66500 100644
--- a/lenstronomy/Util/image_util.py
+++ b/lenstronomy/Util/image_util.py
@@ -245,19 +245,18 @@ def rebin_image(bin_size, image, wht_map, sigma_bkg, ra_coords, dec_coords, idex
     """
     num_pix = int(len(image) / bin_size)
     num_pix_precut = num_pix * bin_size
-    factor = int(len(image) / num_pix)
+    factor = int(bin_size)
     if not num_pix * bin_size == len(image):
         image_precut = image[0:num_pix_precut, 0:num_pix_precut]
     else:
         image_precut = image
-    image_resized = re_size(image_precut, factor)
-    image_resized *= bin_size**2
+    image_resized = re_size(image_precut, factor) * bin_size**2
     wht_map_resized = re_size(wht_map[0:num_pix_precut, 0:num_pix_precut], factor)
     sigma_bkg_resized = bin_size * sigma_bkg
     ra_coords_resized = re_size(ra_coords[0:num_pix_precut, 0:num_pix_precut], factor)
     dec_coords_resized = re_size(dec_coords[0:num_pix_precut, 0:num_pix_precut], factor)
     idex_mask_resized = re_size(idex_mask[0:num_pix_precut, 0:num_pix_precut], factor)
-    idex_mask_resized[idex_mask_resized > 0] = 1
+    idex_mask_resized = np.where(idex_mask_resized > 0, 1, idex_mask_resized)
     return (
         image_resized,
         wht_map_resized,
-- 
2.43.0


From bee18541ec45f4f29a8cf4bb1660bcf3d676d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:09 +0000
Subject: [PATCH 144/175] fix: get_distance with equidistant images

---
 lenstronomy/Util/util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index 6a1569e..e236830 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -445,9 +445,7 @@ def get_distance(x_mins, y_mins, x_true, y_true):
     for i in range(0, len(x_mins)):
         dist_list = (x_mins[i] - x_true_list) ** 2 + (y_mins[i] - y_true_list) ** 2
         dist += min(dist_list)
-        k = np.where(dist_list == min(dist_list))
-        if type(k) != int:
-            k = k[0]
+        k = np.argmin(dist_list)
         x_true_list = np.delete(x_true_list, k)
         y_true_list = np.delete(y_true_list, k)
     return dist
-- 
2.43.0


From e6d9cc6a6f03345a4636eb35876be31ac2888326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:09 +0000
Subject: [PATCH 145/175] fix: min_square_dist of integer positions

---
 lenstronomy/Util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index e236830..cd7cd3b 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -478,7 +478,7 @@ def min_square_dist(x_1, y_1, x_2, y_2):
     :param y_2:
     :return:
     """
-    dist = np.zeros_like(x_1)
+    dist = np.zeros(len(x_1))
     for i in range(len(x_1)):
         dist[i] = np.min((x_1[i] - x_2) ** 2 + (y_1[i] - y_2) ** 2)
     return dist
-- 
2.43.0


From c66a16454eb12c92de1b7b40661c8235e54c2727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:48 +0000
Subject: [PATCH 146/175] fix: redshifts of the main lens with line-of-sight
 flexion do not depend on its position in the list

---
 lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
index 48186ca..e7cae27 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
@@ -76,7 +76,7 @@ class SinglePlaneLOSFlexion(SinglePlane):
         self._main_lens = SinglePlane(
             lens_model_list_wo_los,
             profile_kwargs_list=profile_kwargs_list_wo_los,
-            lens_redshift_list=lens_redshift_list,
+            lens_redshift_list=lens_redshift_list_wo_los,
             z_source_convention=z_source_convention,
         )
 
-- 
2.43.0


From 2cea8f7f741196cab38df32de3439f93f76937bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:48 +0000
Subject: [PATCH 147/175] fix: rotation in the Jacobian of line-of-sight
 flexion

---
 lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
index e7cae27..7ec5602 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
@@ -511,8 +511,8 @@ class SinglePlaneLOSFlexion(SinglePlane):
 
         # LOS contribution in the absence of the main lens
         f_xx += kappa_os + gamma1_os
-        f_xy += gamma2_os
-        f_yx += gamma2_os
+        f_xy += gamma2_os - kwargs_los_flexion["omega_os"]
+        f_yx += gamma2_os + kwargs_los_flexion["omega_os"]
         f_yy += kappa_os - gamma1_os
 
         return f_xx.real, f_xy.real, f_yx.real, f_yy.real
-- 
2.43.0


From 6484fc26bb70289f1c871da4b9e45eff12c5a429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:26 +0000
Subject: [PATCH 148/175] fix: quad fits start from the parameters passed and
 keep earlier results

---
 .../LensModel/QuadOptimizer/optimizer.py      |  2 +-
 .../LensModel/QuadOptimizer/param_manager.py  | 21 ++++++-------------
 2 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/lenstronomy/LensModel/QuadOptimizer/optimizer.py b/lenstronomy/LensModel/QuadOptimizer/optimizer.py
index d31572b..56eafd8 100644
--- a/lenstronomy/LensModel/QuadOptimizer/optimizer.py
+++ b/lenstronomy/LensModel/QuadOptimizer/optimizer.py
@@ -277,7 +277,7 @@ class Optimizer(object):
             kwargs, verbose, minimize_method
         )
         source_x_array, source_y_array = self.ray_shooting_method(
-            self.x_image, self.y_image, kwargs
+            self.x_image, self.y_image, kwargs_lens_final
         )
         source_x, source_y = np.mean(source_x_array), np.mean(source_y_array)
 
diff --git a/lenstronomy/LensModel/QuadOptimizer/param_manager.py b/lenstronomy/LensModel/QuadOptimizer/param_manager.py
index 416bcfd..c066ca0 100644
--- a/lenstronomy/LensModel/QuadOptimizer/param_manager.py
+++ b/lenstronomy/LensModel/QuadOptimizer/param_manager.py
@@ -161,10 +161,7 @@ class PowerLawFreeShear(PowerLawParamManager):
 
         kwargs_shear = {"gamma1": args[5], "gamma2": args[6]}
 
-        self.kwargs_lens[0] = kwargs_epl
-        self.kwargs_lens[1] = kwargs_shear
-
-        return self.kwargs_lens
+        return [kwargs_epl, kwargs_shear] + self.kwargs_lens[2:]
 
 
 class PowerLawFixedShear(PowerLawParamManager):
@@ -204,9 +201,7 @@ class PowerLawFixedShear(PowerLawParamManager):
         phi, _ = shear_cartesian2polar(g1, g2)
         gamma1, gamma2 = shear_polar2cartesian(phi, self._shear_strength)
         kwargs_shear = {"gamma1": gamma1, "gamma2": gamma2}
-        self.kwargs_lens[0] = kwargs_epl
-        self.kwargs_lens[1] = kwargs_shear
-        return self.kwargs_lens
+        return [kwargs_epl, kwargs_shear] + self.kwargs_lens[2:]
 
 
 class PowerLawFreeShearMultipole(PowerLawParamManager):
@@ -248,15 +243,13 @@ class PowerLawFreeShearMultipole(PowerLawParamManager):
         }
         kwargs_shear = {"gamma1": g1, "gamma2": g2}
 
-        self.kwargs_lens[0] = kwargs_epl
-        self.kwargs_lens[1] = kwargs_shear
-
         self.kwargs_lens[2]["center_x"] = center_x
         self.kwargs_lens[2]["center_y"] = center_y
         phi, _ = ellipticity2phi_q(e1, e2)
         self.kwargs_lens[2]["phi_m"] = phi
 
-        return self.kwargs_lens
+        kwargs_multipole = dict(self.kwargs_lens[2])
+        return [kwargs_epl, kwargs_shear, kwargs_multipole] + self.kwargs_lens[3:]
 
 
 class PowerLawFixedShearMultipole(PowerLawFixedShear):
@@ -301,12 +294,10 @@ class PowerLawFixedShearMultipole(PowerLawFixedShear):
         gamma1, gamma2 = shear_polar2cartesian(phi, self._shear_strength)
         kwargs_shear = {"gamma1": gamma1, "gamma2": gamma2}
 
-        self.kwargs_lens[0] = kwargs_epl
-        self.kwargs_lens[1] = kwargs_shear
-
         self.kwargs_lens[2]["center_x"] = center_x
         self.kwargs_lens[2]["center_y"] = center_y
         phi, _ = ellipticity2phi_q(e1, e2)
         self.kwargs_lens[2]["phi_m"] = phi
 
-        return self.kwargs_lens
+        kwargs_multipole = dict(self.kwargs_lens[2])
+        return [kwargs_epl, kwargs_shear, kwargs_multipole] + self.kwargs_lens[3:]
-- 
2.43.0


From 5465cf08f0a5f384e25aa06a86ced57d6a30919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:08 +0000
Subject: [PATCH 149/175] fix: model plots of the later bands when an earlier
 band is not computed

---
 lenstronomy/Plots/model_plot.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/Plots/model_plot.py b/lenstronomy/Plots/model_plot.py
index 1a22f6b..6002a01 100644
--- a/lenstronomy/Plots/model_plot.py
+++ b/lenstronomy/Plots/model_plot.py
@@ -139,15 +139,17 @@ class ModelPlot(object):
 
         self._band_plot_list = []
         self._index_list = []
-        index = 0
         for i in range(len(multi_band_list)):
             if bands_compute[i] is True:
                 if multi_band_type == "joint-linear":
                     param_i = param
                     cov_param_i = cov_param
+                    # only computed bands are part of the joint solution
+                    index = len(self._band_plot_list)
                 else:
-                    param_i = param[index]
-                    cov_param_i = cov_param[index]
+                    param_i = param[i]
+                    cov_param_i = cov_param[i]
+                    index = i
 
                 bandplot = ModelBandPlot(
                     multi_band_list,
@@ -163,11 +165,10 @@ class ModelPlot(object):
                     linear_solver=linear_solver,
                 )
 
+                self._index_list.append(len(self._band_plot_list))
                 self._band_plot_list.append(bandplot)
-                self._index_list.append(index)
             else:
                 self._index_list.append(-1)
-            index += 1
 
         self._font_size = 15
 
@@ -235,8 +236,8 @@ class ModelPlot(object):
             _axes[:] = axes
             axes = _axes
         i = 0
-        for band_index in self._index_list:
-            if band_index >= 0:
+        for band_index, plot_index in enumerate(self._index_list):
+            if plot_index >= 0:
                 axes[i, 0].set_title("image " + str(band_index))
                 self.data_plot(ax=axes[i, 0], band_index=band_index, **kwargs_matshow)
                 self.model_plot(
-- 
2.43.0


From 2182c5cce2b1098f294e134af5c16f18f87a8fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:08 +0000
Subject: [PATCH 150/175] fix: coordinate arrows of source plots lie within the
 source frame

---
 lenstronomy/Plots/model_band_plot.py | 4 ++--
 lenstronomy/Plots/tracer_plot.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Plots/model_band_plot.py b/lenstronomy/Plots/model_band_plot.py
index 617fd4e..5e12887 100644
--- a/lenstronomy/Plots/model_band_plot.py
+++ b/lenstronomy/Plots/model_band_plot.py
@@ -976,8 +976,8 @@ class ModelBandPlot(ModelBand):
             kwargs_coordinate_arrows.setdefault("arrow_color_east", "w")
             plot_util.show_coordinate_arrows(
                 ax,
-                self._frame_size,
-                self._coords,
+                d_s,
+                coords_source,
                 **kwargs_coordinate_arrows,
             )
         if kwargs_title is not None:
diff --git a/lenstronomy/Plots/tracer_plot.py b/lenstronomy/Plots/tracer_plot.py
index ac25e30..f1997f4 100644
--- a/lenstronomy/Plots/tracer_plot.py
+++ b/lenstronomy/Plots/tracer_plot.py
@@ -811,8 +811,8 @@ class TracerPlot(object):
             kwargs_coordinate_arrows.setdefault("arrow_color_east", "w")
             plot_util.show_coordinate_arrows(
                 ax,
-                self._frame_size,
-                self._coords,
+                d_s,
+                coords_source,
                 **kwargs_coordinate_arrows,
             )
         if kwargs_title is not None:
-- 
2.43.0


From fc64a6d4521c9b3ef68304b193cb5fe97fa95f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:08 +0000
Subject: [PATCH 151/175] fix: critical curves are drawn in the colour asked
 for

---
 lenstronomy/Plots/lens_plot.py       | 2 +-
 lenstronomy/Plots/model_band_plot.py | 2 +-
 lenstronomy/Plots/tracer_plot.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Plots/lens_plot.py b/lenstronomy/Plots/lens_plot.py
index 83d7721..29755e8 100644
--- a/lenstronomy/Plots/lens_plot.py
+++ b/lenstronomy/Plots/lens_plot.py
@@ -546,7 +546,7 @@ def arrival_time_surface(
             origin=origin,
             **kwargs_caustics,
         )
-        kwargs_caustics.setdefault("color", critical_curve_color)
+        kwargs_caustics["color"] = critical_curve_color
         plot_util.plot_line_set(
             ax,
             _coords,
diff --git a/lenstronomy/Plots/model_band_plot.py b/lenstronomy/Plots/model_band_plot.py
index 5e12887..bc0d584 100644
--- a/lenstronomy/Plots/model_band_plot.py
+++ b/lenstronomy/Plots/model_band_plot.py
@@ -1358,7 +1358,7 @@ class ModelBandPlot(ModelBand):
                 points_only=self._caustic_points_only,
                 **kwargs_caustics,
             )
-            kwargs_caustics.setdefault("color", critical_curve_color)
+            kwargs_caustics["color"] = critical_curve_color
             plot_util.plot_line_set(
                 ax,
                 self._coords,
diff --git a/lenstronomy/Plots/tracer_plot.py b/lenstronomy/Plots/tracer_plot.py
index f1997f4..4c6634f 100644
--- a/lenstronomy/Plots/tracer_plot.py
+++ b/lenstronomy/Plots/tracer_plot.py
@@ -1048,7 +1048,7 @@ class TracerPlot(object):
                 points_only=self._caustic_points_only,
                 **kwargs_caustics,
             )
-            kwargs_caustics.setdefault("color", critical_curve_color)
+            kwargs_caustics["color"] = critical_curve_color
             plot_util.plot_line_set(
                 ax,
                 self._coords,
-- 
2.43.0


From a81fd2c65da54e886fab62a04e64c5baeffe80a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:08 +0000
Subject: [PATCH 152/175] fix: image positions are plotted when images outside
 of the frame are included

---
 lenstronomy/Plots/plot_util.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/Plots/plot_util.py b/lenstronomy/Plots/plot_util.py
index 749e83f..d3c07ac 100644
--- a/lenstronomy/Plots/plot_util.py
+++ b/lenstronomy/Plots/plot_util.py
@@ -611,12 +611,11 @@ def image_position_plot(
         x_image, y_image = coords.map_coord2pix(ra, dec)
 
         for i in range(len(x_image)):
-            if not plot_out_of_image:
-                if 0 < x_image[i] < nx and 0 < y_image[i] < ny:
-                    x_ = x_image[i] * pixel_width_x + origin[0]
-                    y_ = y_image[i] * pixel_width + origin[1]
-                    ax.plot(x_, y_, "o", color=color)
-                    ax.text(x_, y_, image_name_list[i], fontsize=20, color=color)
+            if plot_out_of_image or (0 < x_image[i] < nx and 0 < y_image[i] < ny):
+                x_ = x_image[i] * pixel_width_x + origin[0]
+                y_ = y_image[i] * pixel_width + origin[1]
+                ax.plot(x_, y_, "o", color=color)
+                ax.text(x_, y_, image_name_list[i], fontsize=20, color=color)
     return ax
 
 
-- 
2.43.0


From f0a277d0dc0a62b3bee6f87f0a2422cd6ebc681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:08 +0000
Subject: [PATCH 153/175] fix: position of title texts as documented

---
 lenstronomy/Plots/plot_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Plots/plot_util.py b/lenstronomy/Plots/plot_util.py
index d3c07ac..0b657cb 100644
--- a/lenstronomy/Plots/plot_util.py
+++ b/lenstronomy/Plots/plot_util.py
@@ -241,8 +241,8 @@ def show_title_text(ax, **kwargs_title: "Unpack[TitleKwargs]"):
     backgroundcolor = kwargs_title.get("backgroundcolor", "k")
     flipped = kwargs_title.get("flipped", False)
     font_size = kwargs_title.get("font_size", 15)
-    title_x_pos = kwargs_title.get("title_x_pos", None)
-    title_y_pos = kwargs_title.get("title_y_pos", None)
+    title_x_pos = kwargs_title.get("x_position", None)
+    title_y_pos = kwargs_title.get("y_position", None)
 
     if title_x_pos is None:
         if flipped:
-- 
2.43.0


From 4e4f61b2de251fed4f41bcb391bf41814b163c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:08 +0000
Subject: [PATCH 154/175] fix: positions and curves in tracer plots are shown
 at the centers of their pixels

---
 lenstronomy/Plots/tracer_plot.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/lenstronomy/Plots/tracer_plot.py b/lenstronomy/Plots/tracer_plot.py
index 4c6634f..884cda2 100644
--- a/lenstronomy/Plots/tracer_plot.py
+++ b/lenstronomy/Plots/tracer_plot.py
@@ -125,6 +125,14 @@ class TracerPlot(object):
         self._data = self._coords.data
         self._delta_pix = self._coords.pixel_width
         self._frame_size = np.max(self._coords.width)
+        width_x, width_y = self._coords.width
+        # integer pixel coordinates are the centers of the pixels
+        self._image_extent = [
+            -self._delta_pix / 2,
+            width_x - self._delta_pix / 2,
+            -self._delta_pix / 2,
+            width_y - self._delta_pix / 2,
+        ]
         x_grid, y_grid = self._coords.pixel_coordinates
         self._x_grid = util.image2array(x_grid)
         self._y_grid = util.image2array(y_grid)
@@ -236,7 +244,7 @@ class TracerPlot(object):
         im = ax.matshow(
             np.log10(self._data),
             origin="lower",
-            extent=[0, self._frame_size, 0, self._frame_size],
+            extent=self._image_extent,
             vmin=vmin,
             vmax=vmax,
             **kwargs_matshow,
@@ -333,7 +341,7 @@ class TracerPlot(object):
             origin="lower",
             vmin=vmin,
             vmax=vmax,
-            extent=[0, self._frame_size, 0, self._frame_size],
+            extent=self._image_extent,
             **kwargs_matshow,
         )
         ax.get_xaxis().set_visible(False)
@@ -430,7 +438,7 @@ class TracerPlot(object):
         im = ax.matshow(
             np.log10(kappa_result),
             origin="lower",
-            extent=[0, self._frame_size, 0, self._frame_size],
+            extent=self._image_extent,
             vmin=v_min,
             vmax=v_max,
             **kwargs_matshow,
@@ -513,7 +521,7 @@ class TracerPlot(object):
             self._norm_residuals,
             vmin=v_min,
             vmax=v_max,
-            extent=[0, self._frame_size, 0, self._frame_size],
+            extent=self._image_extent,
             origin="lower",
             **kwargs_matshow,
         )
@@ -597,7 +605,7 @@ class TracerPlot(object):
             self._model - self._data,
             vmin=v_min,
             vmax=v_max,
-            extent=[0, self._frame_size, 0, self._frame_size],
+            extent=self._image_extent,
             origin="lower",
             **kwargs_matshow,
         )
@@ -765,7 +773,12 @@ class TracerPlot(object):
         im = ax.matshow(
             source_scale,
             origin="lower",
-            extent=[0, d_s, 0, d_s],
+            extent=[
+                -delta_pix_source / 2,
+                d_s - delta_pix_source / 2,
+                -delta_pix_source / 2,
+                d_s - delta_pix_source / 2,
+            ],
             **kwargs_matshow,
         )  # source
         ax.get_xaxis().set_visible(False)
@@ -877,7 +890,7 @@ class TracerPlot(object):
         im = ax.matshow(
             mag_result,
             origin="lower",
-            extent=[0, self._frame_size, 0, self._frame_size],
+            extent=self._image_extent,
             **kwargs_matshow,
         )
         ax.get_xaxis().set_visible(False)
@@ -988,7 +1001,7 @@ class TracerPlot(object):
         im = ax.matshow(
             alpha,
             origin="lower",
-            extent=[0, self._frame_size, 0, self._frame_size],
+            extent=self._image_extent,
             **kwargs_matshow,
         )
         ax.get_xaxis().set_visible(False)
-- 
2.43.0


From d8adf5376ceabdb4e83fa7fc3a84bcd3ee565fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:19 +0000
Subject: [PATCH 155/175] fix: multi patch plots keep their labels apart and
 show rectangular frames to scale

---
 lenstronomy/Plots/multi_patch_plot.py | 29 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/lenstronomy/Plots/multi_patch_plot.py b/lenstronomy/Plots/multi_patch_plot.py
index 4d0d49c..d621572 100644
--- a/lenstronomy/Plots/multi_patch_plot.py
+++ b/lenstronomy/Plots/multi_patch_plot.py
@@ -115,7 +115,8 @@ class MultiPatchPlot(MultiPatchReconstruction):
         :type kwargs_matshow: dict
         :return: matplotlib instance
         """
-        kwargs_colorbar.setdefault("label", r"log$_{10}$ flux")
+        if kwargs_colorbar is not None:
+            kwargs_colorbar = {"label": r"log$_{10}$ flux", **kwargs_colorbar}
         kwargs_matshow.setdefault("cmap", "cubehelix")
 
         return self._plot(
@@ -163,7 +164,8 @@ class MultiPatchPlot(MultiPatchReconstruction):
         :type kwargs_matshow: dict
         :return: matplotlib instance
         """
-        kwargs_colorbar.setdefault("label", r"log$_{10}$ flux")
+        if kwargs_colorbar is not None:
+            kwargs_colorbar = {"label": r"log$_{10}$ flux", **kwargs_colorbar}
         kwargs_matshow.setdefault("cmap", "cubehelix")
 
         return self._plot(
@@ -223,7 +225,8 @@ class MultiPatchPlot(MultiPatchReconstruction):
         source, coords = self.source(
             num_pix=num_pix, delta_pix=delta_pix, center=center
         )
-        kwargs_colorbar.setdefault("label", r"log$_{10}$ flux")
+        if kwargs_colorbar is not None:
+            kwargs_colorbar = {"label": r"log$_{10}$ flux", **kwargs_colorbar}
         kwargs_matshow.setdefault("cmap", "cubehelix")
 
         return self._plot(
@@ -280,9 +283,8 @@ class MultiPatchPlot(MultiPatchReconstruction):
         :type kwargs_matshow: dict
         :return: matplotlib instance
         """
-        kwargs_colorbar.setdefault(
-            "label", r"(f$_{\rm data}$ - f$_{\rm model}$)/$\sigma$"
-        )
+        if kwargs_colorbar is not None:
+            kwargs_colorbar = {"label": r"(f$_{\rm data}$ - f$_{\rm model}$)/$\sigma$", **kwargs_colorbar}
         kwargs_matshow.setdefault("cmap", "RdBu_r")
 
         return self._plot(
@@ -339,8 +341,10 @@ class MultiPatchPlot(MultiPatchReconstruction):
         :type kwargs_matshow: dict
         :return: matplotlib instance
         """
-        kwargs_colorbar.setdefault("label", r"$\log_{10}\ \kappa$")
-        kwargs_title.setdefault("text", "Convergence")
+        if kwargs_colorbar is not None:
+            kwargs_colorbar = {"label": r"$\log_{10}\ \kappa$", **kwargs_colorbar}
+        if kwargs_title is not None:
+            kwargs_title = {"text": "Convergence", **kwargs_title}
         kwargs_matshow.setdefault("cmap", "gist_heat")
 
         return self._plot(
@@ -400,8 +404,10 @@ class MultiPatchPlot(MultiPatchReconstruction):
         :type kwargs_matshow: dict
         :return: matplotlib instance
         """
-        kwargs_colorbar.setdefault("label", r"$\det\ (\mathsf{A}^{-1})$")
-        kwargs_title.setdefault("text", "Magnification")
+        if kwargs_colorbar is not None:
+            kwargs_colorbar = {"label": r"$\det\ (\mathsf{A}^{-1})$", **kwargs_colorbar}
+        if kwargs_title is not None:
+            kwargs_title = {"text": "Magnification", **kwargs_title}
         kwargs_matshow.setdefault("cmap", "RdYlBu_r")
 
         return self._plot(
@@ -494,6 +500,7 @@ class MultiPatchPlot(MultiPatchReconstruction):
             text_k = "k"
             bkg_k = "w"
 
+        width_x, width_y = coords.width
         frame_size = np.max(coords.width)
 
         if log_scale:
@@ -507,7 +514,7 @@ class MultiPatchPlot(MultiPatchReconstruction):
         im = ax.matshow(
             image_plot,
             origin="lower",
-            extent=[0, frame_size, 0, frame_size],
+            extent=[0, width_x, 0, width_y],
             **kwargs_matshow,
         )
 
-- 
2.43.0


From d8a255e4cc5395579873a9c64b417304ac7c755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:19 +0000
Subject: [PATCH 156/175] fix: lens model plots leave the arguments of the
 caller unchanged

---
 lenstronomy/Plots/lens_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Plots/lens_plot.py b/lenstronomy/Plots/lens_plot.py
index 29755e8..c29dcd9 100644
--- a/lenstronomy/Plots/lens_plot.py
+++ b/lenstronomy/Plots/lens_plot.py
@@ -155,7 +155,7 @@ def lens_model_plot(
     if point_source:
         if kwargs_point_source is None:
             kwargs_point_source = {}
-        kwargs_point_source.setdefault("color", "k")
+        kwargs_point_source = {"color": "k", **kwargs_point_source}
         point_source_plot(
             ax,
             pixel_grid=_coords,
-- 
2.43.0


From 4c3f77e58e9081c8d0c49903449580d4660fcf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:19 +0000
Subject: [PATCH 157/175] fix: plot of a single quasar image

---
 lenstronomy/Plots/plot_quasar_images.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Plots/plot_quasar_images.py b/lenstronomy/Plots/plot_quasar_images.py
index e9216ba..8f6f9b6 100644
--- a/lenstronomy/Plots/plot_quasar_images.py
+++ b/lenstronomy/Plots/plot_quasar_images.py
@@ -82,9 +82,9 @@ def plot_quasar_images(
     import matplotlib.pyplot as plt
 
     N = len(images)
-    fig, axes = plt.subplots(N, 1, figsize=(16, 6))
+    fig, axes = plt.subplots(N, 1, figsize=(16, 6), squeeze=False)
     for i, (image, mag, fr) in enumerate(zip(images, magnifications, flux_ratios)):
-        ax = axes[i]
+        ax = axes[i, 0]
         ax.imshow(
             image,
             origin="lower",
-- 
2.43.0


From 567aacf678b115172f70d7bcdbccba4f854020de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:25 +0000
Subject: [PATCH 158/175] fix: the likelihood mask of tracer data is applied

---
 lenstronomy/ImSim/tracer_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/ImSim/tracer_model.py b/lenstronomy/ImSim/tracer_model.py
index af599f4..f13ad16 100644
--- a/lenstronomy/ImSim/tracer_model.py
+++ b/lenstronomy/ImSim/tracer_model.py
@@ -72,6 +72,7 @@ class TracerModelSource(ImageModel):
             point_source_class=point_source_class,
             extinction_class=extinction_class,
             kwargs_numerics=kwargs_numerics,
+            likelihood_mask=likelihood_mask,
             kwargs_pixelbased=kwargs_pixelbased,
         )
         if psf_error_map_bool_list is None:
-- 
2.43.0


From 8cf334c20cac3801c05de5b09e6779650689914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:25 +0000
Subject: [PATCH 159/175] fix: tracer plots without colour bar

---
 lenstronomy/Plots/tracer_plot.py | 57 +++++++++++++++++---------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/lenstronomy/Plots/tracer_plot.py b/lenstronomy/Plots/tracer_plot.py
index 884cda2..8c0e051 100644
--- a/lenstronomy/Plots/tracer_plot.py
+++ b/lenstronomy/Plots/tracer_plot.py
@@ -784,15 +784,16 @@ class TracerPlot(object):
         ax.get_xaxis().set_visible(False)
         ax.get_yaxis().set_visible(False)
         ax.autoscale(False)
-        divider = make_axes_locatable(ax)
-        cax = divider.append_axes("right", size="5%", pad=0.05)
-        cb = plt.colorbar(im, cax=cax)
-        kwargs_colorbar.setdefault("label", r"tracer")
-        plot_util.show_colorbar(
-            cb,
-            font_size=font_size,
-            **kwargs_colorbar,
-        )
+        if kwargs_colorbar is not None:
+            divider = make_axes_locatable(ax)
+            cax = divider.append_axes("right", size="5%", pad=0.05)
+            cb = plt.colorbar(im, cax=cax)
+            kwargs_colorbar = {"label": r"tracer", **kwargs_colorbar}
+            plot_util.show_colorbar(
+                cb,
+                font_size=font_size,
+                **kwargs_colorbar,
+            )
 
         if kwargs_caustics is not None:
             kwargs_caustics = dict(kwargs_caustics)
@@ -927,15 +928,16 @@ class TracerPlot(object):
                 ax,
                 **kwargs_title,
             )
-        divider = make_axes_locatable(ax)
-        cax = divider.append_axes("right", size="5%", pad=0.05)
-        cb = plt.colorbar(im, cax=cax)
-        kwargs_colorbar.setdefault("label", r"$\det\ (\mathsf{A}^{-1})$")
-        plot_util.show_colorbar(
-            cb,
-            font_size=font_size,
-            **kwargs_colorbar,
-        )
+        if kwargs_colorbar is not None:
+            divider = make_axes_locatable(ax)
+            cax = divider.append_axes("right", size="5%", pad=0.05)
+            cb = plt.colorbar(im, cax=cax)
+            kwargs_colorbar = {"label": r"$\det\ (\mathsf{A}^{-1})$", **kwargs_colorbar}
+            plot_util.show_colorbar(
+                cb,
+                font_size=font_size,
+                **kwargs_colorbar,
+            )
         ra_image, dec_image = self.PointSource.image_position(
             self._kwargs_ps, self._kwargs_lens
         )
@@ -1038,15 +1040,16 @@ class TracerPlot(object):
                 ax,
                 **kwargs_title,
             )
-        divider = make_axes_locatable(ax)
-        cax = divider.append_axes("right", size="5%", pad=0.05)
-        cb = plt.colorbar(im, cax=cax)
-        kwargs_colorbar.setdefault("label", r"arcsec")
-        plot_util.show_colorbar(
-            cb,
-            font_size=font_size,
-            **kwargs_colorbar,
-        )
+        if kwargs_colorbar is not None:
+            divider = make_axes_locatable(ax)
+            cax = divider.append_axes("right", size="5%", pad=0.05)
+            cb = plt.colorbar(im, cax=cax)
+            kwargs_colorbar = {"label": r"arcsec", **kwargs_colorbar}
+            plot_util.show_colorbar(
+                cb,
+                font_size=font_size,
+                **kwargs_colorbar,
+            )
         if kwargs_caustics is not None:
             kwargs_caustics = dict(kwargs_caustics)
             kwargs_caustics.setdefault("color", "b")
-- 
2.43.0


From aa8447a611c3ae4256703eb2d0d0abb54c60dbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:01 +0000
Subject: [PATCH 160/175] fix: substructure plots with a source redshift
 convention

---
 lenstronomy/Plots/model_band_plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Plots/model_band_plot.py b/lenstronomy/Plots/model_band_plot.py
index bc0d584..71b93e0 100644
--- a/lenstronomy/Plots/model_band_plot.py
+++ b/lenstronomy/Plots/model_band_plot.py
@@ -528,6 +528,7 @@ class ModelBandPlot(ModelBand):
             multi_plane=multi_plane,
             lens_redshift_list=lens_redshift_list_macro,
             z_source=z_source,
+            z_source_convention=self._lens_model._z_source_convention,
             cosmo=cosmo,
             profile_kwargs_list=profile_kwargs_list_macro,
         )
-- 
2.43.0


From b526636888366d539afc0691d23cc0bb46d9413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:55 +0000
Subject: [PATCH 161/175] fix: ranges of positions along the mirrored axis of
 COOLEST templates

---
 lenstronomy/Util/coolest_read_util.py | 28 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/lenstronomy/Util/coolest_read_util.py b/lenstronomy/Util/coolest_read_util.py
index f7a885a..0957bf2 100644
--- a/lenstronomy/Util/coolest_read_util.py
+++ b/lenstronomy/Util/coolest_read_util.py
@@ -136,6 +136,19 @@ def shearbounds_coolest_to_lenstronomy(
         return gamma1_down, gamma1_up, gamma2_down, gamma2_up
 
 
+def mirrored_range(definition_range):
+    """Range of a coordinate along the x-axis, which has opposite directions in COOLEST
+    and in lenstronomy.
+
+    :param definition_range: range of the parameter in COOLEST conventions
+    :return: lower and upper bound in lenstronomy conventions (None if not defined)
+    """
+    min_value, max_value = definition_range.min_value, definition_range.max_value
+    lower = None if max_value is None else -np.asarray(max_value)[()]
+    upper = None if min_value is None else -np.asarray(min_value)[()]
+    return lower, upper
+
+
 def update_kwargs_shear(
     shear_idx,
     lens_model_list,
@@ -359,8 +372,7 @@ def update_kwargs_pemd(
                 if getattr(mass_param.point_estimate, "value") is not None
                 else None
             )
-            center_x_up = getattr(mass_param.definition_range, "max_value")
-            center_x_down = getattr(mass_param.definition_range, "min_value")
+            center_x_down, center_x_up = mirrored_range(mass_param.definition_range)
             center_x_fixed = center_x if getattr(mass_param, "fixed") else None
         elif mass_name == "center_y":
             center_y = getattr(mass_param.point_estimate, "value")
@@ -520,8 +532,7 @@ def update_kwargs_sie(
                 if getattr(mass_param.point_estimate, "value") is not None
                 else None
             )
-            center_x_up = getattr(mass_param.definition_range, "max_value")
-            center_x_down = getattr(mass_param.definition_range, "min_value")
+            center_x_down, center_x_up = mirrored_range(mass_param.definition_range)
             center_x_fixed = center_x if getattr(mass_param, "fixed") else None
         elif mass_name == "center_y":
             center_y = getattr(mass_param.point_estimate, "value")
@@ -678,8 +689,7 @@ def update_kwargs_sersic(
                 if getattr(light_param.point_estimate, "value") is not None
                 else None
             )
-            cx_up = getattr(light_param.definition_range, "max_value")
-            cx_down = getattr(light_param.definition_range, "min_value")
+            cx_down, cx_up = mirrored_range(light_param.definition_range)
             cx_fixed = cx if getattr(light_param, "fixed") else None
         elif light_name == "center_y":
             cy = getattr(light_param.point_estimate, "value")
@@ -835,8 +845,7 @@ def update_kwargs_shapelets(
                 if getattr(light_param.point_estimate, "value") is not None
                 else None
             )
-            cx_up = getattr(light_param.definition_range, "max_value")
-            cx_down = getattr(light_param.definition_range, "min_value")
+            cx_down, cx_up = mirrored_range(light_param.definition_range)
             cx_fixed = cx if getattr(light_param, "fixed") else None
         elif light_name == "center_y":
             cy = getattr(light_param.point_estimate, "value")
@@ -952,8 +961,7 @@ def update_kwargs_lensed_ps(
                 if getattr(light_param.point_estimate, "value") is not None
                 else None
             )
-            ra_up = getattr(light_param.definition_range, "max_value")
-            ra_down = getattr(light_param.definition_range, "min_value")
+            ra_down, ra_up = mirrored_range(light_param.definition_range)
             ra_fixed = ra if getattr(light_param, "fixed") else None
         elif light_name == "dec_list":
             dec = getattr(light_param.point_estimate, "value")
-- 
2.43.0


From fb7029539fb515bf82210595e9cb9847495271fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:22 +0000
Subject: [PATCH 162/175] fix: percentiles of quantities that change sign in
 COOLEST conventions

---
 lenstronomy/Util/coolest_update_util.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lenstronomy/Util/coolest_update_util.py b/lenstronomy/Util/coolest_update_util.py
index 579f2be..daa0d74 100644
--- a/lenstronomy/Util/coolest_update_util.py
+++ b/lenstronomy/Util/coolest_update_util.py
@@ -269,7 +269,7 @@ def pemd_update(mass, kwargs_lens, kwargs_lens_mcmc=None):
         cx_16, cx_50, cx_84 = np.quantile(cx, [0.16, 0.5, 0.84])
         mass.parameters["center_x"].set_posterior(
             PosteriorStatistics(
-                -float(cx_mean), -float(cx_50), -float(cx_16), -float(cx_84)
+                -float(cx_mean), -float(cx_50), -float(cx_84), -float(cx_16)
             )
         )
 
@@ -345,7 +345,7 @@ def sie_update(mass, kwargs_lens, kwargs_lens_mcmc=None):
         cx_16, cx_50, cx_84 = np.quantile(cx, [0.16, 0.5, 0.84])
         mass.parameters["center_x"].set_posterior(
             PosteriorStatistics(
-                -float(cx_mean), -float(cx_50), -float(cx_16), -float(cx_84)
+                -float(cx_mean), -float(cx_50), -float(cx_84), -float(cx_16)
             )
         )
 
@@ -442,7 +442,7 @@ def sersic_update(light, kwargs_light, kwargs_light_mcmc=None):
         cx_16, cx_50, cx_84 = np.quantile(cx, [0.16, 0.5, 0.84])
         light.parameters["center_x"].set_posterior(
             PosteriorStatistics(
-                -float(cx_mean), -float(cx_50), -float(cx_16), -float(cx_84)
+                -float(cx_mean), -float(cx_50), -float(cx_84), -float(cx_16)
             )
         )
 
@@ -485,15 +485,17 @@ def shapelets_update(light, kwargs_light, kwargs_light_mcmc=None):
     )
 
     if kwargs_light_mcmc is not None:
-        a = [arg["amp"] for arg in kwargs_light_mcmc]
+        a = [
+            shapelet_amp_lenstronomy_to_coolest(arg["amp"]) for arg in kwargs_light_mcmc
+        ]
         a_mean = np.mean(a, axis=0)
         a_16, a_50, a_84 = np.quantile(a, [0.16, 0.5, 0.84], axis=0)
         light.parameters["amps"].set_posterior(
             PosteriorStatistics(
-                shapelet_amp_lenstronomy_to_coolest(np.ndarray.tolist(a_mean)),
-                shapelet_amp_lenstronomy_to_coolest(np.ndarray.tolist(a_50)),
-                shapelet_amp_lenstronomy_to_coolest(np.ndarray.tolist(a_16)),
-                shapelet_amp_lenstronomy_to_coolest(np.ndarray.tolist(a_84)),
+                np.ndarray.tolist(a_mean),
+                np.ndarray.tolist(a_50),
+                np.ndarray.tolist(a_16),
+                np.ndarray.tolist(a_84),
             )
         )
 
@@ -518,7 +520,7 @@ def shapelets_update(light, kwargs_light, kwargs_light_mcmc=None):
         cx_16, cx_50, cx_84 = np.quantile(cx, [0.16, 0.5, 0.84])
         light.parameters["center_x"].set_posterior(
             PosteriorStatistics(
-                -float(cx_mean), -float(cx_50), -float(cx_16), -float(cx_84)
+                -float(cx_mean), -float(cx_50), -float(cx_84), -float(cx_16)
             )
         )
 
@@ -572,8 +574,8 @@ def lensed_point_source_update(light, kwargs_ps, kwargs_ps_mcmc=None):
             PosteriorStatistics(
                 np.ndarray.tolist(-ra_mean),
                 np.ndarray.tolist(-ra_50),
-                np.ndarray.tolist(-ra_16),
                 np.ndarray.tolist(-ra_84),
+                np.ndarray.tolist(-ra_16),
             )
         )
         dec = [arg["dec_image"] for arg in kwargs_ps_mcmc]
-- 
2.43.0


From c230029bd5f5df0297c89be03c14c50c51aba108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:22 +0000
Subject: [PATCH 163/175] fix: shapelets read from a COOLEST template can be
 written back

---
 lenstronomy/Util/coolest_update_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/coolest_update_util.py b/lenstronomy/Util/coolest_update_util.py
index daa0d74..862bc1d 100644
--- a/lenstronomy/Util/coolest_update_util.py
+++ b/lenstronomy/Util/coolest_update_util.py
@@ -468,7 +468,7 @@ def shapelets_update(light, kwargs_light, kwargs_light_mcmc=None):
     """
     light.parameters["amps"].set_point_estimate(
         PointEstimate(
-            shapelet_amp_lenstronomy_to_coolest(np.ndarray.tolist(kwargs_light["amp"]))
+            shapelet_amp_lenstronomy_to_coolest(np.asarray(kwargs_light["amp"]).tolist())
         )
     )
     light.parameters["beta"].set_point_estimate(
-- 
2.43.0


From 47aa39efbc605ef4c32ca6030c773b622b2b9b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:22 +0000
Subject: [PATCH 164/175] fix: posterior of orientations in COOLEST templates
 across the limits of the angle

---
 lenstronomy/Util/coolest_update_util.py | 29 ++++++++++++++++---------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/lenstronomy/Util/coolest_update_util.py b/lenstronomy/Util/coolest_update_util.py
index 862bc1d..627daea 100644
--- a/lenstronomy/Util/coolest_update_util.py
+++ b/lenstronomy/Util/coolest_update_util.py
@@ -85,6 +85,21 @@ def folding_coolest(value):
     return coolest_oriented_degree
 
 
+def angle_statistics(phi):
+    """Statistics of a sample of orientations, which have a period of 180 degrees.
+
+    :param phi: array of orientations in degrees in COOLEST conventions
+    :return: mean, median, 16th and 84th percentile around the direction of the sample,
+        in ]-90,90] degrees
+    """
+    phi = np.asarray(phi)
+    center = np.angle(np.mean(np.exp(2j * np.deg2rad(phi))), deg=True) / 2.0
+    phi = center + (phi - center + 90.0) % 180.0 - 90.0
+    return folding_coolest(
+        np.append(np.mean(phi), np.quantile(phi, [0.5, 0.16, 0.84]))
+    )
+
+
 def e1e2_lenstronomy_to_qphi_coolest(e1, e2):
     """Transform e1,e2 in lenstronomy to q and phi (axis ratio, position angle East-of-
     North)
@@ -161,10 +176,7 @@ def shear_update(shear_idx, kwargs_lens, kwargs_lens_mcmc=None):
             )
         )
 
-        p_ext_mean = folding_coolest(np.mean(p_ext))
-        p_ext_16, p_ext_50, p_ext_84 = folding_coolest(
-            np.quantile(p_ext, [0.16, 0.5, 0.84])
-        )
+        p_ext_mean, p_ext_50, p_ext_16, p_ext_84 = angle_statistics(p_ext)
         shear_idx.parameters["phi_ext"].set_posterior(
             PosteriorStatistics(
                 float(p_ext_mean), float(p_ext_50), float(p_ext_16), float(p_ext_84)
@@ -256,8 +268,7 @@ def pemd_update(mass, kwargs_lens, kwargs_lens_mcmc=None):
             )
         )
 
-        phil_mean = np.mean(phil)
-        phil_16, phil_50, phil_84 = np.quantile(phil, [0.16, 0.5, 0.84])
+        phil_mean, phil_50, phil_16, phil_84 = angle_statistics(phil)
         mass.parameters["phi"].set_posterior(
             PosteriorStatistics(
                 float(phil_mean), float(phil_50), float(phil_16), float(phil_84)
@@ -332,8 +343,7 @@ def sie_update(mass, kwargs_lens, kwargs_lens_mcmc=None):
             )
         )
 
-        phil_mean = np.mean(phil)
-        phil_16, phil_50, phil_84 = np.quantile(phil, [0.16, 0.5, 0.84])
+        phil_mean, phil_50, phil_16, phil_84 = angle_statistics(phil)
         mass.parameters["phi"].set_posterior(
             PosteriorStatistics(
                 float(phil_mean), float(phil_50), float(phil_16), float(phil_84)
@@ -429,8 +439,7 @@ def sersic_update(light, kwargs_light, kwargs_light_mcmc=None):
             )
         )
 
-        phil_mean = np.mean(phil)
-        phil_16, phil_50, phil_84 = np.quantile(phil, [0.16, 0.5, 0.84])
+        phil_mean, phil_50, phil_16, phil_84 = angle_statistics(phil)
         light.parameters["phi"].set_posterior(
             PosteriorStatistics(
                 float(phil_mean), float(phil_50), float(phil_16), float(phil_84)
-- 
2.43.0


From 7d81e2dea5e6f3354336dbbe25d94a92d8982240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:22 +0000
Subject: [PATCH 165/175] fix: likelihood threshold of chains for COOLEST
 templates

---
 lenstronomy/Util/coolest_interface.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Util/coolest_interface.py b/lenstronomy/Util/coolest_interface.py
index abc344a..0cc880b 100644
--- a/lenstronomy/Util/coolest_interface.py
+++ b/lenstronomy/Util/coolest_interface.py
@@ -770,10 +770,17 @@ def create_kwargs_mcmc_from_chain_list(
     args_source = []
     args_lens_light = []
     args_ps = []
+    if likelihood_threshold is not None and not np.any(
+        np.array(dist_buf) >= likelihood_threshold
+    ):
+        print(
+            "Warning: no sample of the chain reaches the likelihood threshold, the entire chain is used."
+        )
+        likelihood_threshold = None
     for w in range(len(dist_buf)):
         if likelihood_threshold is not None:
             if dist_buf[w] < likelihood_threshold:
-                pass
+                continue
         kwargs_return = param_class.args2kwargs(par_buf[w])
         kwargs_return.pop("kwargs_tracer_source", None)
         image_linear.image_linear_solve(**kwargs_return)
-- 
2.43.0


From 8ce9bfd34fce8bf1c077325ea6a14e655af8d56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:22 +0000
Subject: [PATCH 166/175] fix: supersampling factor of kernels in COOLEST
 templates is rounded

---
 lenstronomy/Util/coolest_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/coolest_interface.py b/lenstronomy/Util/coolest_interface.py
index 0cc880b..70342fb 100644
--- a/lenstronomy/Util/coolest_interface.py
+++ b/lenstronomy/Util/coolest_interface.py
@@ -120,7 +120,7 @@ def create_lenstronomy_from_coolest(file_name, use_epl=True, **kwargs_serializer
                 psf_ny = lens_instrument.psf.pixels.num_pix_y
                 super_sampling_factor = 1
                 if pixel_size != psf_pixel_size:
-                    super_sampling_factor = int(pixel_size / psf_pixel_size)
+                    super_sampling_factor = int(round(pixel_size / psf_pixel_size))
                     print(
                         f"PSF pixel size {psf_pixel_size} is different from image pixel size {pixel_size}. "
                         f"Assuming super sampling factor of {super_sampling_factor}."
-- 
2.43.0


From 54c73c6c2d4e30b04d7b06b0d862305a1088ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:37 +0000
Subject: [PATCH 167/175] fix: data files of COOLEST templates are read from
 the folder of the template

---
 lenstronomy/Util/coolest_interface.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Util/coolest_interface.py b/lenstronomy/Util/coolest_interface.py
index 70342fb..7149d84 100644
--- a/lenstronomy/Util/coolest_interface.py
+++ b/lenstronomy/Util/coolest_interface.py
@@ -44,7 +44,9 @@ def create_lenstronomy_from_coolest(file_name, use_epl=True, **kwargs_serializer
             nx = lens_observation.pixels.num_pix_x
             ny = lens_observation.pixels.num_pix_y
             try:
-                image = fits.getdata(image_path, header=False).astype(float)
+                image = fits.getdata(
+                    lens_observation.pixels.fits_file.abs_path, header=False
+                ).astype(float)
                 if (np.shape(image)[0] != nx) or (np.shape(image)[1] != ny):
                     print(
                         f"image shape {np.shape(image)} is different from the coolest file  {nx}, {ny}"
@@ -76,7 +78,9 @@ def create_lenstronomy_from_coolest(file_name, use_epl=True, **kwargs_serializer
                 creation_data = True
                 noise_path = lens_observation.noise.noise_map.fits_file.path
                 try:
-                    noise = fits.getdata(noise_path, header=False).astype(float)
+                    noise = fits.getdata(
+                        lens_observation.noise.noise_map.fits_file.abs_path, header=False
+                    ).astype(float)
                 except:
                     noise = noise_path
                     print(
@@ -109,7 +113,9 @@ def create_lenstronomy_from_coolest(file_name, use_epl=True, **kwargs_serializer
                 creation_instrument = True
                 psf_path = lens_instrument.psf.pixels.fits_file.path
                 try:
-                    psf = fits.getdata(psf_path, header=False).astype(float)
+                    psf = fits.getdata(
+                        lens_instrument.psf.pixels.fits_file.abs_path, header=False
+                    ).astype(float)
                 except:
                     psf = psf_path
                     print(
-- 
2.43.0


From 1ab60f00d369a96a10dbc89587fd79f23ce9ad9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:55 +0000
Subject: [PATCH 168/175] fix: 2D kinematic likelihood uses the selected lens
 light component

---
 .../Sampling/Likelihoods/kinematic_2D_likelihood.py  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
index 2073d6a..bc96072 100644
--- a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
@@ -62,8 +62,8 @@ class KinLikelihood(object):
 
         self.kin_x_grid, self.kin_y_grid = self.kin_class.kin_grid()
 
-        self.lens_light_bool_list = list(
-            np.zeros_like(self.lens_light_model_class.profile_type_list, dtype=bool)
+        self.lens_light_bool_list = [False] * len(
+            self.lens_light_model_class.profile_type_list
         )
         self.lens_light_bool_list[self._idx_lens_light] = True
 
@@ -158,8 +158,8 @@ class KinLikelihood(object):
         q_mass = kwargs_lens[self._idx_lens]["q"]
         # orientation_light, q_light = param_util.ellipticity2phi_q(kwargs_lens_light[self._idx_lens]['e1'],
         #                                                         kwargs_lens_light[self._idx_lens]['e2'])
-        orientation_light = kwargs_lens_light[self._idx_lens]["phi"]
-        q_light = kwargs_lens_light[self._idx_lens]["q"]
+        orientation_light = kwargs_lens_light[self._idx_lens_light]["phi"]
+        q_light = kwargs_lens_light[self._idx_lens_light]["q"]
 
         same_orientation = True  # confirm that angles are aligned
         if np.abs(orientation_mass - orientation_light) > 0.05:
@@ -177,8 +177,8 @@ class KinLikelihood(object):
                     q_mass,
                     q_light,
                     theta_e_glee,
-                    kwargs_lens_light[self._idx_lens]["n_sersic"],
-                    kwargs_lens_light[self._idx_lens]["R_sersic"],
+                    kwargs_lens_light[self._idx_lens_light]["n_sersic"],
+                    kwargs_lens_light[self._idx_lens_light]["R_sersic"],
                     8.0e-2,
                     gamma_glee,
                     kwargs_special["b_ani"],
-- 
2.43.0


From 21b19f7bacd35265fc0cd3fda92a3072312983f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:55 +0000
Subject: [PATCH 169/175] fix: 2D kinematic likelihood compares orientations
 modulo pi

---
 lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
index bc96072..47799b3 100644
--- a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
@@ -162,7 +162,10 @@ class KinLikelihood(object):
         q_light = kwargs_lens_light[self._idx_lens_light]["q"]
 
         same_orientation = True  # confirm that angles are aligned
-        if np.abs(orientation_mass - orientation_light) > 0.05:
+        delta_phi = orientation_mass - orientation_light
+        # position angles are only defined modulo pi
+        delta_phi = np.mod(delta_phi + np.pi / 2, np.pi) - np.pi / 2
+        if np.abs(delta_phi) > 0.05:
             if q_light < 0.95 or q_mass < 0.95:
                 same_orientation = False
 
-- 
2.43.0


From 1c4d7c0d7e4f63e9b8bdeb21ea8b39b23032ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:55 +0000
Subject: [PATCH 170/175] fix: binned kinematic maps keep shifts, shape and
 non-integer values

---
 lenstronomy/Data/kinematic_bin_2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Data/kinematic_bin_2D.py b/lenstronomy/Data/kinematic_bin_2D.py
index 33117f0..9ee0d42 100644
--- a/lenstronomy/Data/kinematic_bin_2D.py
+++ b/lenstronomy/Data/kinematic_bin_2D.py
@@ -42,7 +42,7 @@ class KinBin(object):
 
         """
         self.PSF = psf_class
-        nx, ny = np.shape(bin_mask)
+        ny, nx = np.shape(bin_mask)
         self._nx = nx
         self._ny = ny
         self.PixelGrid = PixelGrid(
@@ -53,8 +53,8 @@ class KinBin(object):
         self.covariance = bin_cov
         self.bin_mask = bin_mask
         self._pix2a = transform_pix2angle
-        self._ra_at_xy_0 = ra_at_xy_0
-        self._dec_at_xy_0 = dec_at_xy_0
+        self._ra_at_xy_0 = ra_at_xy_0 + ra_shift
+        self._dec_at_xy_0 = dec_at_xy_0 + dec_shift
 
     @staticmethod
     def binned_image(data, bin_mask):
@@ -63,7 +63,7 @@ class KinBin(object):
         :param data: data value in each bin
         :param bin_mask: mask indicating which pixels belong to which bin
         """
-        binned_image = np.zeros_like(bin_mask)
+        binned_image = np.zeros_like(bin_mask, dtype=float)
         for idx, value in enumerate(data):
             binned_image[bin_mask == idx] = value
         return binned_image
-- 
2.43.0


From 2b511b0a90c8c60b3da97ab626b9749f87b54c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:55 +0000
Subject: [PATCH 171/175] fix: verbosity of the kinematic network does not
 replace the orientation flag

---
 lenstronomy/Sampling/Likelihoods/kinematic_NN_call.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Likelihoods/kinematic_NN_call.py b/lenstronomy/Sampling/Likelihoods/kinematic_NN_call.py
index b0c651c..fa8ccb6 100644
--- a/lenstronomy/Sampling/Likelihoods/kinematic_NN_call.py
+++ b/lenstronomy/Sampling/Likelihoods/kinematic_NN_call.py
@@ -32,7 +32,7 @@ class KinematicNN:
         :param input_p: vector of input parameters
         :return: the velocity map associated with input_p
         """
-        self.within_bounds = self.check_bounds(input_p, verbose)
+        self.within_bounds = self.check_bounds(input_p, verbose=verbose)
         return self.generator.generate_map(input_p)
 
     def plot_map(self, ax, input_p):
-- 
2.43.0


From bc2b7899061a3a91b388590fffcb72670ebe907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:29 +0000
Subject: [PATCH 172/175] fix: enclosed mass of the truncated NFW profile
 scales the truncation radius with Rs

---
 lenstronomy/LensModel/Profiles/tnfw.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/tnfw.py b/lenstronomy/LensModel/Profiles/tnfw.py
index 4818fb5..c459f44 100644
--- a/lenstronomy/LensModel/Profiles/tnfw.py
+++ b/lenstronomy/LensModel/Profiles/tnfw.py
@@ -206,17 +206,18 @@ class TNFW(LensProfileBase):
 
         x = r * Rs**-1
         x = np.maximum(x, self._s)
+        tau = r_trunc * Rs**-1
         func = (
-            r_trunc**2
+            tau**2
             * (
-                -2 * x * (1 + r_trunc**2)
-                + 4 * (1 + x) * r_trunc * np.arctan(x / r_trunc)
-                - 2 * (1 + x) * (-1 + r_trunc**2) * np.log(Rs)
-                + 2 * (1 + x) * (-1 + r_trunc**2) * np.log(Rs * (1 + x))
-                + 2 * (1 + x) * (-1 + r_trunc**2) * np.log(Rs * r_trunc)
-                - (1 + x) * (-1 + r_trunc**2) * np.log(Rs**2 * (x**2 + r_trunc**2))
+                -2 * x * (1 + tau**2)
+                + 4 * (1 + x) * tau * np.arctan(x / tau)
+                - 2 * (1 + x) * (-1 + tau**2) * np.log(Rs)
+                + 2 * (1 + x) * (-1 + tau**2) * np.log(Rs * (1 + x))
+                + 2 * (1 + x) * (-1 + tau**2) * np.log(Rs * tau)
+                - (1 + x) * (-1 + tau**2) * np.log(Rs**2 * (x**2 + tau**2))
             )
-        ) / (2.0 * (1 + x) * (1 + r_trunc**2) ** 2)
+        ) / (2.0 * (1 + x) * (1 + tau**2) ** 2)
 
         m_3d = 4 * np.pi * Rs**3 * rho0 * func
         return m_3d
-- 
2.43.0


From 7c172b16f2594deda0eb5517c523ce49077f7879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:06 +0000
Subject: [PATCH 173/175] fix: original order of image positions also when
 additional images are part of the point source model

---
 lenstronomy/PointSource/point_source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 67db078..adf6736 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -74,6 +74,7 @@ class PointSource(object):
         self._fixed_magnification_list = fixed_magnification_list
         if additional_images_list is None:
             additional_images_list = [False] * len(point_source_type_list)
+        self._additional_images_list = additional_images_list
         if flux_from_point_source_list is None:
             flux_from_point_source_list = [True] * len(point_source_type_list)
         self._flux_from_point_source_list = flux_from_point_source_list
@@ -290,7 +291,7 @@ class PointSource(object):
                 # this takes action when new images are computed not necessary in order
                 if (
                     original_position is True
-                    and additional_images is True
+                    and (additional_images is True or self._additional_images_list[i] is True)
                     and self.point_source_type_list[i] == "LENSED_POSITION"
                 ):
                     x_o, y_o = kwargs["ra_image"], kwargs["dec_image"]
-- 
2.43.0


From c08ce7fbaa9df397e1278b863d0f5f40a8daaa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:31 +0000
Subject: [PATCH 174/175] fix: distortions() shows its maps with the
 declination axis upwards

---
 lenstronomy/Plots/lens_plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Plots/lens_plot.py b/lenstronomy/Plots/lens_plot.py
index c29dcd9..95b9812 100644
--- a/lenstronomy/Plots/lens_plot.py
+++ b/lenstronomy/Plots/lens_plot.py
@@ -920,7 +920,11 @@ def distortions(
         font_size = 10
         _arrow_size = 0.02
         im = ax.matshow(
-            frame, extent=[0, _frame_size, 0, _frame_size], vmin=vmin, vmax=vmax
+            frame,
+            origin="lower",
+            extent=[0, _frame_size, 0, _frame_size],
+            vmin=vmin,
+            vmax=vmax,
         )
         ax.get_xaxis().set_visible(False)
         ax.get_yaxis().set_visible(False)
-- 
2.43.0


From 74ffb2e9543594825319f0fc70ca370b992cdcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:20 +0000
Subject: [PATCH 175/175] fix: two-image solvers that turn the shear or
 ellipticity keep its strength when parameters are encoded

Param.kwargs2args() dropped the second component, which is fixed to zero for
THETA_E_PHI and THETA_E_ELLIPSE, so that a decoded model could not be encoded
without weakening its shear or ellipticity.
---
 lenstronomy/Sampling/parameters.py | 48 ++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index 43d5976..cfd2bdb 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -665,6 +665,50 @@ class Param(object):
         :param kwargs_tracer_source: tracer of the source light keyword argument list
         :return: numpy array of parameters
         """
+        return self._kwargs2args(
+            self._solver_angle_free(kwargs_lens),
+            kwargs_source,
+            kwargs_lens_light,
+            kwargs_ps,
+            kwargs_special,
+            kwargs_extinction,
+            kwargs_tracer_source,
+        )
+
+    def _solver_angle_free(self, kwargs_lens):
+        """The 2-point solvers 'THETA_E_PHI' and 'THETA_E_ELLIPSE' determine the angle
+        of the shear or ellipticity from the image positions and only its strength is
+        sampled, as the first component with the second one being fixed to zero. This
+        routine rotates the shear or ellipticity into that frame such that its strength
+        is not lost.
+
+        :param kwargs_lens: lens model keyword argument list
+        :return: lens model keyword argument list to be translated into arguments
+        """
+        if self._solver is True and self._num_images == 2 and kwargs_lens:
+            k, name_1, name_2 = {
+                "THETA_E_PHI": (1, "gamma1", "gamma2"),
+                "THETA_E_ELLIPSE": (0, "e1", "e2"),
+            }.get(self._solver_type, (None, None, None))
+            if k is not None and {name_1, name_2} <= set(kwargs_lens[k]):
+                if kwargs_lens[k][name_2] != 0:
+                    kwargs_lens = list(kwargs_lens)
+                    strength = np.hypot(kwargs_lens[k][name_1], kwargs_lens[k][name_2])
+                    kwargs_lens[k] = {**kwargs_lens[k], name_1: strength, name_2: 0}
+        return kwargs_lens
+
+    def _kwargs2args(
+        self,
+        kwargs_lens,
+        kwargs_source,
+        kwargs_lens_light,
+        kwargs_ps,
+        kwargs_special,
+        kwargs_extinction,
+        kwargs_tracer_source,
+    ):
+        """Translates all keyword arguments as they are into the array of parameters,
+        see kwargs2args()."""
         args = self.lens_params.set_params(kwargs_lens)
         args += self.source_params.set_params(kwargs_source)
         args += self.lens_light_params.set_params(kwargs_lens_light)
@@ -679,7 +723,7 @@ class Param(object):
 
         :return: lower and upper limits of the arguments being sampled
         """
-        lower_limit = self.kwargs2args(
+        lower_limit = self._kwargs2args(
             kwargs_lens=self.lens_params.lower_limit,
             kwargs_source=self.source_params.lower_limit,
             kwargs_lens_light=self.lens_light_params.lower_limit,
@@ -688,7 +732,7 @@ class Param(object):
             kwargs_extinction=self.extinction_params.lower_limit,
             kwargs_tracer_source=self.tracer_source_params.lower_limit,
         )
-        upper_limit = self.kwargs2args(
+        upper_limit = self._kwargs2args(
             kwargs_lens=self.lens_params.upper_limit,
             kwargs_source=self.source_params.upper_limit,
             kwargs_lens_light=self.lens_light_params.upper_limit,
-- 
2.43.0

