From 03172e2b1edf53f48a11ee3d2819acc6eff5a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 01/29] fix: calibrate() crashed after the first epoch unless
 use_learnable_spectrum was set

The progress printout read OPS.p_exponent/q_exponent unconditionally, which only
exist when the learnable energy spectrum is enabled (it is off by default).
---
 drdmannturb/spectra_fitting/calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 55ce139..65743c0 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -499,8 +499,9 @@ class CalibrationProblem:
             print(f"\tCurrent L: {self.OPS.LengthScale.item()}")
             print(f"\tCurrent Gamma: {self.OPS.TimeScale.item()}")
             print(f"\tCurrent sigma: {self.OPS.Magnitude.item()}")
-            print(f"\tCurrent p: {self.OPS.p_exponent.item()}")
-            print(f"\tCurrent q: {self.OPS.q_exponent.item()}")
+            if self.prob_params.use_learnable_spectrum:
+                print(f"\tCurrent p: {self.OPS.p_exponent.item()}")
+                print(f"\tCurrent q: {self.OPS.q_exponent.item()}")
 
             if not (torch.isfinite(self.loss)):
                 raise RuntimeError("Loss is not a finite value, check initialization and learning hyperparameters.")
-- 
2.43.0


From a4f265559d52dfe1ea12b29cad64789f78b0b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 02/29] fix: low-frequency field restarted at x=0 on every
 generate() call

Blocks appended by a later generate() call were superposed with the low-frequency
field of the first blocks again instead of the continuation of it.
---
 .../fluctuation_generation/fluctuation_field_generator.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index d631464..cff4ca5 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -450,7 +450,8 @@ class FluctuationFieldGenerator:
                 # --- X-Coordinates (blocks progress in x-direction
                 current_block_nx = normed_block.shape[0]
                 block_length_x = self.grid_dimensions[0] * (current_block_nx / self.Nx)
-                x_start = i * self.grid_dimensions[0]  # TODO: Revisit if blending affects block start/end precisely
+                # Blocks accumulate over calls, so the position is that of the next block in the total field
+                x_start = (self.total_fluctuation.shape[0] // self.Nx) * self.grid_dimensions[0]
                 x_end = x_start + block_length_x
                 x_coords_block_target = np.linspace(x_start, x_end, current_block_nx, endpoint=False)
 
-- 
2.43.0


From 7ee9e9caaf93744f02b92f26f81aee48ec47591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 03/29] fix: seeded 2D+3D generators were not reproducible

The low-frequency field was always drawn from NumPy's global generator, so the same
seed gave different wind fields.
---
 .../fluctuation_field_generator.py                       | 4 +++-
 .../low_frequency/fluctuation_field_generator.py         | 9 +++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index cff4ca5..3cd7ef2 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -252,7 +252,9 @@ class FluctuationFieldGenerator:
 
         self.low_freq_gen: LowFreqGenerator | None = None
         if config_2d_model is not None:
-            self.low_freq_gen = LowFreqGenerator(config_2d_model)
+            # Spawned seed: reproducible, but independent of the stream used for the small-scale noise
+            low_freq_seed = None if self.seed is None else np.random.SeedSequence(self.seed).spawn(1)[0]
+            self.low_freq_gen = LowFreqGenerator(config_2d_model, seed=low_freq_seed)
 
             print("Generating low-frequency field...")
 
diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 3bccb57..dfc4834 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -84,7 +84,7 @@ class LowFreqGenerator:
 
     """
 
-    def __init__(self, config: dict):
+    def __init__(self, config: dict, seed=None):
         """
         Initialize the LowFreqGenerator instance.
 
@@ -95,7 +95,12 @@ class LowFreqGenerator:
         ----------
         config : dict
             Configuration dictionary. See class docstring for required keys.
+        seed : optional
+            Seed following ``np.random.SeedSequence`` conventions, by default None, which results in draws from
+            NumPy's global pseudo-random number generator.
         """
+        self.prng = np.random if seed is None else np.random.RandomState(np.random.MT19937(seed))
+
         # Physical parameters
         self.sigma2 = config["sigma2"]
         self.L_2d = config["L_2d"]
@@ -484,7 +489,7 @@ class LowFreqGenerator:
             The u2 component of the velocity field, extracted to match user dimensions.
         """
         # 1. Generate noise on the computational grid
-        noise = np.random.normal(0, 1, size=(self.comp_N1, self.comp_N2))
+        noise = self.prng.normal(0, 1, size=(self.comp_N1, self.comp_N2))
         # 2. Compute its Fourier transform
         noise_hat = np.fft.fft2(noise)
 
-- 
2.43.0


From e8c929ade6687630f7d53bb5a484a0b1e45826ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 04/29] fix: a generate() call rejected for bad profile
 arguments still advanced the noise

The arguments were validated only after a block had been drawn, so a failed call
changed every field generated afterwards.
---
 .../fluctuation_field_generator.py            | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 3cd7ef2..dfdf5d7 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -286,6 +286,18 @@ class FluctuationFieldGenerator:
 
         return wind
 
+    @staticmethod
+    def _validate_profile(zref: float, uref: float, z0: float, windprofiletype: str, plexp: float | None) -> None:
+        """Raise ValueError if the mean profile parameters are not admissible."""
+        if windprofiletype not in ["LOG", "PL"]:
+            raise ValueError('windprofiletype must be either "LOG" or "PL"')
+
+        if any(param <= 0 for param in [zref, uref, z0]):
+            raise ValueError("zref, uref, and z0 must all be positive")
+
+        if windprofiletype == "PL" and plexp is None:
+            raise ValueError("Power law exponent (plexp) is required when using power law profile")
+
     def _normalize_block(
         self,
         curr_block: np.ndarray,
@@ -344,14 +356,7 @@ class FluctuationFieldGenerator:
         if not np.any(curr_block):
             raise ValueError("No fluctuation field has been generated. The .generate() method must be called first.")
 
-        if windprofiletype not in ["LOG", "PL"]:
-            raise ValueError('windprofiletype must be either "LOG" or "PL"')
-
-        if any(param <= 0 for param in [zref, uref, z0]):
-            raise ValueError("zref, uref, and z0 must all be positive")
-
-        if windprofiletype == "PL" and plexp is None:
-            raise ValueError("Power law exponent (plexp) is required when using power law profile")
+        self._validate_profile(zref, uref, z0, windprofiletype, plexp)
 
         sd = np.sqrt(np.mean(curr_block**2))
         curr_block /= sd
@@ -430,6 +435,10 @@ class FluctuationFieldGenerator:
                 If this is undesirable behavior, instantiate a new object."
             )
 
+        # Reject bad arguments before any noise is consumed
+        if num_blocks > 0:
+            self._validate_profile(zref, uref, z0, windprofiletype, plexp)
+
         for i in range(num_blocks):
             # --- Generate and normalize block ---
             t_block = self._generate_block()
-- 
2.43.0


From be5ff460b2b3c4bdaf3d323394b8c4acd90446ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 05/29] fix: parameters setter aliased the tensor passed by the
 caller

vector_to_parameters() makes the model parameters views of the given vector, so later
in-place changes to it (or calibration of the model) changed the other.
---
 drdmannturb/spectra_fitting/calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 65743c0..b182c25 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -185,6 +185,8 @@ class CalibrationProblem:
 
         if not torch.is_tensor(param_vec):
             param_vec = torch.tensor(param_vec)
+        else:
+            param_vec = param_vec.detach().clone()  # parameters must not share storage with the caller's tensor
 
         if len(param_vec) != current_num_params:
             raise ValueError(
-- 
2.43.0


From ec3aee71a9007c75b7ee542e410bdc18b40a8a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:33 +0000
Subject: [PATCH 06/29] fix: load_coherence_data scrambled files whose rows are
 not sorted or not 0-indexed

Complete grids were reshaped in row order, ignoring sep_idx/freq_idx, and incomplete
ones dropped every index outside 0..n-1.
---
 drdmannturb/spectra_fitting/calibration.py | 39 +++++++++-------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index b182c25..ddd33a4 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1206,30 +1206,21 @@ class CalibrationProblem:
             print(f"Warning: Expected {expected_size} points but got {len(df)}")
             print("This could indicate missing data points.")
 
-            # Create a complete grid and fill with NaN where data is missing
-            coh_u = np.full((n_seps, n_freqs), np.nan)
-            coh_v = np.full((n_seps, n_freqs), np.nan)
-            coh_w = np.full((n_seps, n_freqs), np.nan)
-
-            # Fill in the available data
-            for _, row in df.iterrows():
-                i = int(row["sep_idx"])
-                j = int(row["freq_idx"])
-                if i < n_seps and j < n_freqs:
-                    coh_u[i, j] = row["coh_u"]
-                    coh_v[i, j] = row["coh_v"]
-                    coh_w[i, j] = row["coh_w"]
-
-            # Check how many NaN values we have
-            nan_count = np.sum(np.isnan(coh_u))
-            if nan_count > 0:
-                print(f"Warning: {nan_count} missing data points filled with NaN")
-        else:
-            # We have complete data, can reshape normally
-            print("Complete data grid detected")
-            coh_u = df["coh_u"].values.reshape(n_seps, n_freqs)
-            coh_v = df["coh_v"].values.reshape(n_seps, n_freqs)
-            coh_w = df["coh_w"].values.reshape(n_seps, n_freqs)
+        # Place every row by its indices (rows may come in any order, indices need not be contiguous or start
+        # at 0), leaving NaN where data is missing
+        rows = sep_mapping.index.get_indexer(df["sep_idx"])
+        cols = freq_mapping.index.get_indexer(df["freq_idx"])
+        coh_u = np.full((n_seps, n_freqs), np.nan)
+        coh_v = np.full((n_seps, n_freqs), np.nan)
+        coh_w = np.full((n_seps, n_freqs), np.nan)
+        coh_u[rows, cols] = df["coh_u"].values
+        coh_v[rows, cols] = df["coh_v"].values
+        coh_w[rows, cols] = df["coh_w"].values
+
+        # Check how many NaN values we have
+        nan_count = np.sum(np.isnan(coh_u))
+        if nan_count > 0:
+            print(f"Warning: {nan_count} missing data points filled with NaN")
 
         # Store as class attributes
         self.coherence_spatial_seps = unique_seps
-- 
2.43.0


From ef4fc60f5b3aa35a1052f205307b8231f0c0249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:33 +0000
Subject: [PATCH 07/29] fix: coherence integration parameters were ignored by
 CalibrationProblem

The coherence grid was built lazily with hard-coded bounds and the length scale of
the first evaluation, so coh_* settings had no effect and results depended on history.
---
 .../spectra_fitting/one_point_spectra.py      | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 99baa85..f2c1901 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -125,17 +125,17 @@ class OnePointSpectra(nn.Module):
         self.ops_meshgrid23 = torch.meshgrid(self.ops_grid_k2, self.ops_grid_k3, indexing="ij")
 
         ####
-        # Separate coherence grid (finer resolution for better accuracy)
-        if use_coherence:
-            p1, p2 = integration_params.coh_log_min, integration_params.coh_log_max
-            N_coh = integration_params.coh_num_points
-            grid_zero_coh = torch.tensor([0])
-            grid_plus_coh = torch.logspace(p1, p2, N_coh)
-            grid_minus_coh = -torch.flip(grid_plus_coh, dims=[0])
-            self.coh_grid_k2 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() / physical_params.L
-            self.coh_grid_k3 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() / physical_params.L
-
-            self.coh_meshgrid23 = torch.meshgrid(self.coh_grid_k2, self.coh_grid_k3, indexing="ij")
+        # Separate coherence grid (finer resolution for better accuracy); always built here, since coherence may be
+        # switched on later (by CalibrationProblem) and must use the configured integration parameters then as well
+        p1, p2 = integration_params.coh_log_min, integration_params.coh_log_max
+        N_coh = integration_params.coh_num_points
+        grid_zero_coh = torch.tensor([0])
+        grid_plus_coh = torch.logspace(p1, p2, N_coh)
+        grid_minus_coh = -torch.flip(grid_plus_coh, dims=[0])
+        self.coh_grid_k2 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() / physical_params.L
+        self.coh_grid_k3 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() / physical_params.L
+
+        self.coh_meshgrid23 = torch.meshgrid(self.coh_grid_k2, self.coh_grid_k3, indexing="ij")
 
         self.logLengthScale = nn.Parameter(torch.tensor(np.log10(physical_params.L)))
         self.logTimeScale = nn.Parameter(torch.tensor(np.log10(physical_params.Gamma)))
-- 
2.43.0


From 204120a52cea0ba4b75d2bcab2e7acff2e2961ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:33 +0000
Subject: [PATCH 08/29] fix: plot() drew the F12 data in the F23 panel and vice
 versa

For 6 components the calibration data are already flattened in model order, but were
reordered as if they came in the order used for user-provided data.
---
 drdmannturb/spectra_fitting/calibration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index ddd33a4..c8a4732 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -773,14 +773,14 @@ class CalibrationProblem:
         # Data order depends on num_components:
         # 3 components: [F11, F22, F33] -> model indices [0, 1, 2]
         # 4 components: [F11, F22, F33, F13] -> model indices [0, 1, 2, 3]
-        # 6 components: [F11, F22, F33, F13, F12, F23] -> model indices [0, 1, 2, 3, 5, 4] (reordered)
+        # 6 components: [F11, F22, F33, F13, F23, F12] -> model indices [0, 1, 2, 3, 4, 5]
 
         if self.prob_params.num_components == 3:
             data_component_map = {0: 0, 1: 1, 2: 2}  # model_idx: data_idx
         elif self.prob_params.num_components == 4:
             data_component_map = {0: 0, 1: 1, 2: 2, 3: 3}  # model_idx: data_idx
         elif self.prob_params.num_components == 6:
-            data_component_map = {0: 0, 1: 1, 2: 2, 3: 3, 4: 5, 5: 4}  # model_idx: data_idx (F23 and F12 swapped)
+            data_component_map = {i: i for i in range(6)}  # model_idx: data_idx
         else:
             raise ValueError(f"Invalid number of components: {self.prob_params.num_components}")
 
@@ -815,8 +815,8 @@ class CalibrationProblem:
                         DataValues[:, 1, 1],  # F22 (vv)
                         DataValues[:, 2, 2],  # F33 (ww)
                         DataValues[:, 0, 2],  # F13 (uw)
-                        DataValues[:, 0, 1],  # F12 (uv)
                         DataValues[:, 1, 2],  # F23 (vw)
+                        DataValues[:, 0, 1],  # F12 (uv)
                     ]
                 )
 
-- 
2.43.0


From b7c424f2bb2261fd982caad1e539f6024620250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:33 +0000
Subject: [PATCH 09/29] fix: save_to_vtk failed for pathlib.Path arguments

---
 .../fluctuation_generation/fluctuation_field_generator.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index dfdf5d7..9bea46c 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -534,7 +534,7 @@ class FluctuationFieldGenerator:
             "wind": wind_field_vtk,
         }
 
-        imageToVTK(filepath, cellData=cellData, spacing=spacing)
+        imageToVTK(str(filepath), cellData=cellData, spacing=spacing)
 
     def evaluate_divergence(self, spacing: tuple | np.ndarray, field: np.ndarray | None = None) -> np.ndarray:
         r"""Evaluate the point-wise divergence of a generated fluctuation vector field.
-- 
2.43.0


From c17e3e92d44484f21dc6e309b8a9dfb4410e586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:33 +0000
Subject: [PATCH 10/29] fix: MANN_APPROX eddy lifetime counted the time and
 length scales twice

The regression is on the non-dimensional function of kL, and EddyLifetime() applies
the scales to its result already.
---
 drdmannturb/spectra_fitting/one_point_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index f2c1901..80aebfc 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -443,7 +443,7 @@ class OnePointSpectra(nn.Module):
         kL_temp = np.logspace(-3, 3, 50)
 
         kL_temp = kL_temp.reshape(-1, 1)
-        tau_true = np.log(self.TimeScale_scalar * MannEddyLifetime(self.LengthScale_scalar * kL_temp))
+        tau_true = np.log(MannEddyLifetime(kL_temp))
 
         kL_temp_log = np.log(kL_temp)
 
-- 
2.43.0


From 80a4c95b6ccd935a24a50ded1822ca9f67b99cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:33 +0000
Subject: [PATCH 11/29] fix: DomainParameters could not be constructed

---
 drdmannturb/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/parameters.py b/drdmannturb/parameters.py
index 43e198d..9659614 100644
--- a/drdmannturb/parameters.py
+++ b/drdmannturb/parameters.py
@@ -229,7 +229,7 @@ class DomainParameters:
             self._grid_dimensions = np.array(self.d_dimensions)
 
         # Check grid levels
-        if isinstance(self.grid_levels, (list, np.ndarray)) and len(self.grid_levels) != 3:
+        if isinstance(self.d_levels, (list, np.ndarray)) and len(self.d_levels) != 3:
             raise ValueError("Grid levels must be a tuple of length 3.")
 
         if isinstance(self.d_levels, np.ndarray):
-- 
2.43.0


From 938dd5c115f5f1f65a364bfc37b8db7a7b31428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:33 +0000
Subject: [PATCH 12/29] fix: 'from drdmannturb import *' failed on names that
 no longer exist

---
 drdmannturb/__init__.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/drdmannturb/__init__.py b/drdmannturb/__init__.py
index be1d430..b0523f1 100644
--- a/drdmannturb/__init__.py
+++ b/drdmannturb/__init__.py
@@ -80,15 +80,8 @@ __all__ = [
     "format_wind_field",
     "plot_velocity_components",
     "plot_velocity_magnitude",
-    # Interpolation
-    "extract_x_spectra",
-    "interp_spectra",
-    "interpolate",
     # NN Modules
-    "CustomMLP",
-    "CustomNet",
     "Rational",
-    "SimpleNN",
     "TauNet",
     # Parameters
     "IntegrationParameters",
-- 
2.43.0


From e8d195fa48040ca61b7b8f32be48eda68bdbe54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 13/29] fix: DRD wind-field generators failed for
 single-precision models

The learned eddy lifetime was evaluated on double-precision wavevectors, which a
network of torch's default precision (float32) refuses.
---
 drdmannturb/fluctuation_generation/nn_covariance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/nn_covariance.py b/drdmannturb/fluctuation_generation/nn_covariance.py
index 88357ce..03729a6 100644
--- a/drdmannturb/fluctuation_generation/nn_covariance.py
+++ b/drdmannturb/fluctuation_generation/nn_covariance.py
@@ -113,7 +113,9 @@ class NNCovariance(Covariance):
         kk = np.sum(k**2, axis=0)
 
         with np.errstate(divide="ignore", invalid="ignore"):
-            k_torch = torch.tensor(np.moveaxis(k, 0, -1)) * self.h_ref
+            # evaluated in the precision of the network (which need not be that of the frequencies)
+            dtype = self.OPS.logLengthScale.dtype
+            k_torch = torch.tensor(np.moveaxis(k, 0, -1), dtype=dtype) * self.h_ref
             beta_torch = self.Gamma * self.OPS.tauNet(k_torch)
             beta = beta_torch.detach().cpu().numpy() if beta_torch.is_cuda else beta_torch.detach().numpy()
             beta[np.where(kk == 0)] = 0
-- 
2.43.0


From 4e3e3260e163d17851640794694b9e46d0d229f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:01 +0000
Subject: [PATCH 14/29] fix: DRD fields were generated with the eddy lifetime
 of another length scale

The fit evaluates the network at k times the learned length scale, the generator
evaluated it at k times the reference height only, so the generated fields did not
have the fitted spectra unless the learned (non-dimensional) length scale was 1.
---
 drdmannturb/fluctuation_generation/nn_covariance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/nn_covariance.py b/drdmannturb/fluctuation_generation/nn_covariance.py
index 03729a6..a86ead8 100644
--- a/drdmannturb/fluctuation_generation/nn_covariance.py
+++ b/drdmannturb/fluctuation_generation/nn_covariance.py
@@ -115,7 +115,8 @@ class NNCovariance(Covariance):
         with np.errstate(divide="ignore", invalid="ignore"):
             # evaluated in the precision of the network (which need not be that of the frequencies)
             dtype = self.OPS.logLengthScale.dtype
-            k_torch = torch.tensor(np.moveaxis(k, 0, -1), dtype=dtype) * self.h_ref
+            # the network was fitted as a function of k times the length scale (see OnePointSpectra.EddyLifetime)
+            k_torch = torch.tensor(np.moveaxis(k, 0, -1), dtype=dtype) * self.L
             beta_torch = self.Gamma * self.OPS.tauNet(k_torch)
             beta = beta_torch.detach().cpu().numpy() if beta_torch.is_cuda else beta_torch.detach().numpy()
             beta[np.where(kk == 0)] = 0
-- 
2.43.0


From d15b9f829c9583c961bc3b04df203874b59e1017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:01 +0000
Subject: [PATCH 15/29] fix: wind fields requested with time scale zero came
 out empty

---
 .../fluctuation_generation/fluctuation_field_generator.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 9bea46c..25875b9 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -199,7 +199,7 @@ class FluctuationFieldGenerator:
         ]
         self.new_part_shape = [Nx, Ny + margin_extension[0], Nz + margin_extension[1], 3]
         self.central_part = [
-            slice(self.n_buffer, -self.n_buffer),
+            slice(self.n_buffer, self.noise_shape[0] - self.n_buffer),
             slice(self.n_margin_y, -self.n_margin_y),
             slice(0, -2 * self.n_margin_z),
             slice(None),
-- 
2.43.0


From ccf480880d960e3bd8dcd166072b0f4683bd83f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:37 +0000
Subject: [PATCH 16/29] fix: analytical_spectrum truncated its results for
 integer wavenumbers

---
 .../low_frequency/fluctuation_field_generator.py          | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index dfc4834..57da7dc 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -789,10 +789,10 @@ class LowFreqGenerator:
         ``[-k2_limit, k2_limit]``. Potential integration errors or warnings from
         `scipy.integrate.quad` are caught and reported if ``warn=True``.
         """
-        F11_res_arr = np.zeros_like(k1_arr)
-        F11_err_arr = np.zeros_like(k1_arr)
-        F22_res_arr = np.zeros_like(k1_arr)
-        F22_err_arr = np.zeros_like(k1_arr)
+        F11_res_arr = np.zeros_like(k1_arr, dtype=np.float64)
+        F11_err_arr = np.zeros_like(k1_arr, dtype=np.float64)
+        F22_res_arr = np.zeros_like(k1_arr, dtype=np.float64)
+        F22_err_arr = np.zeros_like(k1_arr, dtype=np.float64)
 
         # Store class attributes locally for potential performance/clarity inside helpers
         _psi = self.psi
-- 
2.43.0


From 1467980387af4097968c360c07a97c962e3b34ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:03 +0000
Subject: [PATCH 17/29] fix: setting parameters of another precision made the
 network unusable

The setter replaced the model's parameters by views of the vector passed in, dtype
included, so e.g. a float64 numpy vector broke every later evaluation of a float32
TauNet (dtype mismatch).
---
 drdmannturb/spectra_fitting/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index c8a4732..1d30403 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -195,7 +195,8 @@ class CalibrationProblem:
                 "p_low/q_high when use_learnable_spectrum is True."
             )
 
-        vector_to_parameters(param_vec, self.OPS.parameters())
+        # keep the model's precision; a vector of another one would make the network unusable
+        vector_to_parameters(param_vec.to(next(self.OPS.parameters()).dtype), self.OPS.parameters())
 
     def log_dimensional_scales(self) -> None:
         """Set the quantities for non-dimensionalization in log-space."""
-- 
2.43.0


From 39d8fc59a133328a4491eedbb2cd4a4b1858729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:25 +0000
Subject: [PATCH 18/29] fix: von Karman data for double-precision wavenumbers
 were rounded to single precision

---
 drdmannturb/spectra_fitting/data_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/data_generator.py b/drdmannturb/spectra_fitting/data_generator.py
index 5a94492..d94f12b 100644
--- a/drdmannturb/spectra_fitting/data_generator.py
+++ b/drdmannturb/spectra_fitting/data_generator.py
@@ -34,7 +34,7 @@ def generate_von_karman_spectra(k1: torch.Tensor, L: float = 0.59, C: float = 3.
     denominator = L_inv_squared + k1_squared
 
     # Initialize tensor with zeros
-    ops_values = torch.zeros([len(k1), 3, 3])
+    ops_values = torch.zeros([len(k1), 3, 3], dtype=k1.dtype)
 
     # Compute diagonal elements vectorized
     ops_values[:, 0, 0] = 9 / 55 * C / denominator ** (5 / 6)
-- 
2.43.0


From e2f4dcfc4fa1eda66f484577418a50c37a1b04ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:07 +0000
Subject: [PATCH 19/29] fix: spacing in exported VTK files was unreadable

---
 .../fluctuation_generation/fluctuation_field_generator.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 25875b9..eb168d4 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -525,7 +525,8 @@ class FluctuationFieldGenerator:
         """
         from pyevtk.hl import imageToVTK
 
-        spacing = tuple(self.grid_dimensions / (2.0**self.grid_levels + 1))
+        # plain floats: the writer prints them with repr, which is unreadable to VTK for numpy scalars
+        spacing = tuple(float(s) for s in self.grid_dimensions / (2.0**self.grid_levels + 1))
 
         wind_field_vtk = tuple([np.copy(self.total_fluctuation[..., i], order="C") for i in range(3)])
 
-- 
2.43.0


From 71a5ffc3ab7e7d15f625e497af4f4dbb721f2c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:48 +0000
Subject: [PATCH 20/29] fix: DomainParameters accepted tuples that are not of
 length three

---
 drdmannturb/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/parameters.py b/drdmannturb/parameters.py
index 9659614..958aa0f 100644
--- a/drdmannturb/parameters.py
+++ b/drdmannturb/parameters.py
@@ -220,7 +220,7 @@ class DomainParameters:
 
     def __post_init__(self):
         # Check grid dimensions
-        if isinstance(self.d_dimensions, (list, np.ndarray)) and len(self.d_dimensions) != 3:
+        if len(self.d_dimensions) != 3:
             raise ValueError("Grid dimensions must be length 3.")
 
         if isinstance(self.d_dimensions, np.ndarray):
@@ -229,7 +229,7 @@ class DomainParameters:
             self._grid_dimensions = np.array(self.d_dimensions)
 
         # Check grid levels
-        if isinstance(self.d_levels, (list, np.ndarray)) and len(self.d_levels) != 3:
+        if len(self.d_levels) != 3:
             raise ValueError("Grid levels must be a tuple of length 3.")
 
         if isinstance(self.d_levels, np.ndarray):
-- 
2.43.0


From a583052a3ded98526718b8a8ce747b2cc6cf3021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:42 +0000
Subject: [PATCH 21/29] fix: plot the coherence of the current model, not of
 the one calibration started from

---
 drdmannturb/spectra_fitting/calibration.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 1d30403..5f644f9 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1092,11 +1092,9 @@ class CalibrationProblem:
             coherence_labels = ["u", "v", "w"]
             colors = ["royalblue", "crimson", "forestgreen"]
 
-            # Get model coherence if available
-            if hasattr(self, "model_coherence_u"):
-                model_coherence = [self.model_coherence_u, self.model_coherence_v, self.model_coherence_w]
-            else:
-                model_coherence = [None, None, None]
+            # Model coherence with the current parameters (they have changed since calibration started)
+            self.model_coherence_u, self.model_coherence_v, self.model_coherence_w = self._compute_model_coherence()
+            model_coherence = [self.model_coherence_u, self.model_coherence_v, self.model_coherence_w]
 
             # Plot for each selected spatial separation
             for row in range(4):  # 4 spatial separations
@@ -1120,10 +1118,9 @@ class CalibrationProblem:
                     )
 
                     # Plot model prediction with frequency shift
-                    if model_coh is not None:
-                        model_coh_cpu = model_coh[row, :].cpu().detach().numpy()
+                    model_coh_cpu = model_coh[row, :].cpu().detach().numpy()
 
-                        ax.plot(self.coherence_frequencies, model_coh_cpu, "-", color=color, linewidth=2, label="Model")
+                    ax.plot(self.coherence_frequencies, model_coh_cpu, "-", color=color, linewidth=2, label="Model")
 
                     # Match the eddy lifetime plot style
                     ax.legend()
-- 
2.43.0


From 2162f56eb7e69c61a7d9e30b47919cf8c10cbf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:42 +0000
Subject: [PATCH 22/29] fix: plot() normalizes given model values by the
 friction velocity like the data they are compared with

---
 drdmannturb/spectra_fitting/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 5f644f9..f270b4f 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -860,9 +860,9 @@ class CalibrationProblem:
                 )
 
         # Always get all 6 components from the model
-        kF_model_vals = model_vals if model_vals is not None else self.OPS(k1_data_pts) / self.phys_params.ustar**2.0
+        kF_model_vals = model_vals if model_vals is not None else self.OPS(k1_data_pts)
 
-        kF_model_vals = kF_model_vals.cpu().detach()
+        kF_model_vals = kF_model_vals.cpu().detach() / self.phys_params.ustar**2.0
         kF_data_vals = kF_data_vals.cpu().detach() / self.phys_params.ustar**2  # TODO: Is this being done twice?
         k1_data_pts = k1_data_pts.cpu().detach()
 
-- 
2.43.0


From 37129917fe7f1aad9a381d58eea24acda1d05f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:42 +0000
Subject: [PATCH 23/29] fix: plot_losses numbers the runs in the order they
 were made, not in directory order

---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index f270b4f..1b57eed 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1160,7 +1160,7 @@ class CalibrationProblem:
         # TODO: This is temporary
         assert self.logging_directory is not None, "Logging directory not set!"
 
-        log_fpath = listdir(self.logging_directory)[run_number]
+        log_fpath = sorted(listdir(self.logging_directory))[run_number]
         full_fpath = path.join(self.logging_directory, log_fpath)
 
         from drdmannturb import plot_loss_logs
-- 
2.43.0


From e8f3ef18ed9ab8f0b76c00904b7ddf719a60cb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:42 +0000
Subject: [PATCH 24/29] fix: plot_loss_logs works for a run that logged a
 single term

---
 drdmannturb/common.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/drdmannturb/common.py b/drdmannturb/common.py
index 55f7dd7..f341c80 100644
--- a/drdmannturb/common.py
+++ b/drdmannturb/common.py
@@ -190,11 +190,11 @@ def plot_loss_logs(log_file: str | Path):
 
     with plt.style.context("bmh"):
         plt.rcParams.update({"font.size": 8})
-        fig, ax = plt.subplots(1, vals_tot.__len__(), figsize=(12, 4), sharex=True)
-        for idx, (scalar_tag, vals) in enumerate(reversed(vals_tot.items())):
-            ax[idx].plot(vals[1:])
-            ax[idx].set_yscale("log")
-            ax[idx].set_title(scalar_tag)
+        fig, ax = plt.subplots(1, vals_tot.__len__(), figsize=(12, 4), sharex=True, squeeze=False)
+        for axis, (scalar_tag, vals) in zip(ax[0], reversed(vals_tot.items())):
+            axis.plot(vals[1:])
+            axis.set_yscale("log")
+            axis.set_title(scalar_tag)
 
         fig.text(0.5, 0.01, "Wolfe Iterations", ha="center")
         fig.tight_layout()
-- 
2.43.0


From ab29744af9cc1ce0bbbce731d6185bab53b4c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:07 +0000
Subject: [PATCH 25/29] fix: plot() before any calibration and without data
 raises the documented ValueError

---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 1b57eed..60700b3 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -822,7 +822,7 @@ class CalibrationProblem:
                 )
 
         else:
-            if self.data is None:
+            if getattr(self, "data", None) is None:
                 raise ValueError("Requires data set to plot against.")
 
             k1_data_pts = self.data["k1"]
-- 
2.43.0


From 3148652ab3d48f3ce8b25b62c89e8787fefa6dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 26/29] fix: calibration with a regularization weight and an
 eddy lifetime without network no longer crashes

---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 60700b3..a53a026 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -430,7 +430,7 @@ class CalibrationProblem:
             # NOTE: Old code used tauNet.NN.parameters() since the NN wasn't "built-in" to the tauNet
             self.gen_theta_NN = lambda: parameters_to_vector(self.OPS.tauNet.parameters())
         else:
-            self.gen_theta_NN = lambda: 0.0
+            self.gen_theta_NN = lambda: None  # no network, nothing to regularize
 
         theta_NN = self.gen_theta_NN()
         # print("\n[DEBUG calibrate] About to calculate initial loss...")
-- 
2.43.0


From 9a3f07f5e0d25b4881e68ad4844a47fa0678e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 27/29] fix: initial noise is added to the parameters of every
 model instead of failing on a missing Corrector

---
 drdmannturb/spectra_fitting/calibration.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index a53a026..16704a4 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -211,14 +211,8 @@ class CalibrationProblem:
 
     def initialize_parameters_with_noise(self):
         """Introduce additive white noise to the OPS parameters."""
-        noise = torch.tensor(
-            self.noise_magnitude * torch.randn(*self.parameters.shape),
-        )
-        vector_to_parameters(noise.abs(), self.OPS.parameters())
-
-        vector_to_parameters(noise, self.OPS.tauNet.parameters())
-
-        vector_to_parameters(noise.abs(), self.OPS.Corrector.parameters())
+        noise = self.noise_magnitude * torch.randn(*self.parameters.shape)
+        self.parameters = torch.as_tensor(self.parameters) + noise
 
     def eval(self, k1: torch.Tensor) -> np.ndarray:
         r"""Evaluate the calibrated model on :math:`k_1`.
-- 
2.43.0


From bf0490eeaa762115f4ad2316bfbd37d26548b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:21 +0000
Subject: [PATCH 28/29] fix: a whole-number L_2d no longer yields a silently
 wrong low-frequency field

---
 .../low_frequency/fluctuation_field_generator.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 57da7dc..b625f97 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -103,7 +103,7 @@ class LowFreqGenerator:
 
         # Physical parameters
         self.sigma2 = config["sigma2"]
-        self.L_2d = config["L_2d"]
+        self.L_2d = float(config["L_2d"])  # the compiled helper takes integer powers of integers
         self.psi = config["psi"]
         self.z_i = config["z_i"]
 
-- 
2.43.0


From 38c573611a2de0f81cf67741b8cb189f1640e38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:21 +0000
Subject: [PATCH 29/29] fix: von Karman and Kaimal spectra on integer
 wavenumbers are no longer truncated to integers

---
 drdmannturb/spectra_fitting/data_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/drdmannturb/spectra_fitting/data_generator.py b/drdmannturb/spectra_fitting/data_generator.py
index d94f12b..8f65650 100644
--- a/drdmannturb/spectra_fitting/data_generator.py
+++ b/drdmannturb/spectra_fitting/data_generator.py
@@ -34,7 +34,7 @@ def generate_von_karman_spectra(k1: torch.Tensor, L: float = 0.59, C: float = 3.
     denominator = L_inv_squared + k1_squared
 
     # Initialize tensor with zeros
-    ops_values = torch.zeros([len(k1), 3, 3], dtype=k1.dtype)
+    ops_values = torch.zeros([len(k1), 3, 3], dtype=denominator.dtype)
 
     # Compute diagonal elements vectorized
     ops_values[:, 0, 0] = 9 / 55 * C / denominator ** (5 / 6)
@@ -70,7 +70,7 @@ def generate_kaimal_spectra(k1: torch.Tensor, zref: float, ustar: float) -> torc
     """
     n = 1 / (2 * np.pi) * k1 * zref
 
-    ops_values = torch.zeros([len(k1), 3, 3], dtype=k1.dtype)
+    ops_values = torch.zeros([len(k1), 3, 3], dtype=n.dtype)
 
     ops_values[:, 0, 0] = 52.5 * n / (1 + 33 * n) ** (5 / 3)
     ops_values[:, 1, 1] = 8.5 * n / (1 + 9.5 * n) ** (5 / 3)
@@ -81,7 +81,7 @@ def generate_kaimal_spectra(k1: torch.Tensor, zref: float, ustar: float) -> torc
 
     return {
         "k1": k1,
-        "ops": ops_values * torch.tensor(ustar**2, dtype=k1.dtype),
+        "ops": ops_values * torch.tensor(ustar**2, dtype=n.dtype),
         "coherence": None,
     }
 
-- 
2.43.0

