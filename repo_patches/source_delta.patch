From a2c512ef82a65645ca23d6c5d669d0e8896cfff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 01/74] fix: release grid and matrix buffers on error returns

---
 c/gridsys.c  | 4 ++++
 c/niggli.c   | 2 ++
 c/phono3py.c | 6 ++++++
 3 files changed, 12 insertions(+)

diff --git a/c/gridsys.c b/c/gridsys.c
index 067ebf6..2cdf225 100644
--- a/c/gridsys.c
+++ b/c/gridsys.c
@@ -136,10 +136,14 @@ int64_t gridsys_get_bz_grid_addresses(
         }
     }
     if (!niggli_reduce(niggli_lattice, GRIDSYS_NIGGLI_TOLERANCE)) {
+        free(bzgrid);
+        bzgrid = NULL;
         return 0;
     }
     if (!lagmat_inverse_matrix_d3(inv_Lr, (double(*)[3])niggli_lattice,
                                   GRIDSYS_NIGGLI_TOLERANCE)) {
+        free(bzgrid);
+        bzgrid = NULL;
         return 0;
     }
     lagmat_multiply_matrix_d3(inv_Mpr, inv_Lr, rec_lattice);
diff --git a/c/niggli.c b/c/niggli.c
index ed0f0ef..5d4a147 100644
--- a/c/niggli.c
+++ b/c/niggli.c
@@ -520,6 +520,8 @@ static double *get_metric(const double *M) {
         return NULL;
     }
     if ((G = multiply_matrices(M_T, M)) == NULL) {
+        free(M_T);
+        M_T = NULL;
         return NULL;
     }
 
diff --git a/c/phono3py.c b/c/phono3py.c
index 25d6e1f..93679f1 100644
--- a/c/phono3py.c
+++ b/c/phono3py.c
@@ -91,6 +91,8 @@ int64_t ph3py_get_interaction(
     if ((atom_triplets = (AtomTriplets *)malloc(sizeof(AtomTriplets))) ==
         NULL) {
         warning_print("Memory could not be allocated.");
+        free(bzgrid);
+        bzgrid = NULL;
         return 0;
     }
 
@@ -158,6 +160,8 @@ int64_t ph3py_get_pp_collision(
     if ((atom_triplets = (AtomTriplets *)malloc(sizeof(AtomTriplets))) ==
         NULL) {
         warning_print("Memory could not be allocated.");
+        free(bzgrid);
+        bzgrid = NULL;
         return 0;
     }
 
@@ -221,6 +225,8 @@ int64_t ph3py_get_pp_collision_with_sigma(
     if ((atom_triplets = (AtomTriplets *)malloc(sizeof(AtomTriplets))) ==
         NULL) {
         warning_print("Memory could not be allocated.");
+        free(bzgrid);
+        bzgrid = NULL;
         return 0;
     }
 
-- 
2.43.0


From 7d59f21347d8729c751fd61b83914025f62ce76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 02/74] fix: initialise private charge_sum in every iteration
 over q-points

---
 c/dynmat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/dynmat.c b/c/dynmat.c
index b94cc87..234b9dc 100644
--- a/c/dynmat.c
+++ b/c/dynmat.c
@@ -132,6 +132,7 @@ int64_t dym_dynamical_matrices_with_dd_openmp_over_qpoints(
 #pragma omp parallel for private(charge_sum, q_cart, q_norm)
 #endif
         for (i = 0; i < n_qpoints; i++) {
+            charge_sum = NULL;
             get_q_cart(q_cart, qpoints[i], reciprocal_lattice);
             q_norm = sqrt(q_cart[0] * q_cart[0] + q_cart[1] * q_cart[1] +
                           q_cart[2] * q_cart[2]);
-- 
2.43.0


From d2c842dad49a596448d5d14de1141e7c19bf3b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 03/74] fix: use Cartesian NAC direction for the dielectric
 part

---
 c/dynmat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/dynmat.c b/c/dynmat.c
index 234b9dc..2c21d5c 100644
--- a/c/dynmat.c
+++ b/c/dynmat.c
@@ -142,7 +142,7 @@ int64_t dym_dynamical_matrices_with_dd_openmp_over_qpoints(
                 dym_get_charge_sum(
                     charge_sum, num_patom,
                     nac_factor / n /
-                        get_dielectric_part(q_direction, dielectric),
+                        get_dielectric_part(q_dir_cart, dielectric),
                     q_dir_cart, born);
             } else if (!(q_norm < q_zero_tolerance)) {
                 charge_sum = (double(*)[3][3])malloc(sizeof(double[3][3]) *
-- 
2.43.0


From 5e3f6cb08ebff06f87fc7ebd8a6096935054ed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:44 +0000
Subject: [PATCH 04/74] fix: Phono3pyIsotope.set_sigma sets the sigma attribute
 of Isotope

---
 phono3py/api_isotope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/api_isotope.py b/phono3py/api_isotope.py
index f5df86a..95af8e9 100644
--- a/phono3py/api_isotope.py
+++ b/phono3py/api_isotope.py
@@ -161,4 +161,4 @@ class Phono3pyIsotope:
 
     def set_sigma(self, sigma):
         """Set sigma. None means tetrahedron method."""
-        self._iso.set_sigma(sigma)
+        self._iso.sigma = sigma
-- 
2.43.0


From 6a2120dd009c4c4db7560d005904f4cc326ba460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:44 +0000
Subject: [PATCH 05/74] fix: JointDos.get_mesh_numbers returns mesh_numbers

---
 phono3py/phonon3/joint_dos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon3/joint_dos.py b/phono3py/phonon3/joint_dos.py
index 37c32a2..65c9bde 100644
--- a/phono3py/phonon3/joint_dos.py
+++ b/phono3py/phonon3/joint_dos.py
@@ -175,7 +175,7 @@ class JointDos:
     def get_mesh_numbers(self):
         """Return mesh numbers by three integer values."""
         warnings.warn("Use attribute, mesh_numbers", DeprecationWarning, stacklevel=2)
-        return self.mesh
+        return self.mesh_numbers
 
     @property
     def nac_q_direction(self):
-- 
2.43.0


From 5a83d92d02b06ca7fa02412976ce6e4fd3e919ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:44 +0000
Subject: [PATCH 06/74] fix: determine fc calculator also when only fc2 is
 created

---
 phono3py/cui/create_force_constants.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index f6518a5..2e7ddb7 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -117,6 +117,10 @@ def create_phono3py_force_constants(
     if log_level:
         show_phono3py_force_constants_settings(settings)
 
+    (fc_calculator, fc_calculator_options) = get_fc_calculator_params(
+        settings, log_level=(not settings.read_fc3) * 1
+    )
+
     #######
     # fc3 #
     #######
@@ -130,9 +134,6 @@ def create_phono3py_force_constants(
     ):
         pass
     else:
-        (fc_calculator, fc_calculator_options) = get_fc_calculator_params(
-            settings, log_level=(not settings.read_fc3) * 1
-        )
         if settings.read_fc3:
             _read_phono3py_fc3(phono3py, symmetrize_fc3r, input_filename, log_level)
         else:  # fc3 from FORCES_FC3 or ph3py_yaml
-- 
2.43.0


From 11cad1e2bab06c2702ce3d2c19587c1fe74bc209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:44 +0000
Subject: [PATCH 07/74] fix: define force_sets when subtracting forces from
 mismatched type-1 forces

---
 phono3py/cui/create_force_sets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index 74d83f0..7f9af7e 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -385,6 +385,7 @@ def _get_force_sets_fc3(
         num_disps, force_filenames, disp_filename
     ):  # type-1
         calc_dataset = {"forces": []}
+        force_sets = calc_dataset["forces"]
     else:  # type-2
         if interface_mode == "wien2k":
             calc_dataset = get_fc3_calc_dataset_wien2k(
-- 
2.43.0


From 3a2b565031b67666f233d794bf83456762c2d956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:04 +0000
Subject: [PATCH 08/74] fix: report spectral function files only when they are
 written

---
 phono3py/phonon3/spectral_function.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/phono3py/phonon3/spectral_function.py b/phono3py/phonon3/spectral_function.py
index 95f4de3..bf900b9 100644
--- a/phono3py/phonon3/spectral_function.py
+++ b/phono3py/phonon3/spectral_function.py
@@ -148,8 +148,8 @@ def run_spectral_function(
                             filename=output_filename,
                             is_mesh_symmetry=interaction.is_mesh_symmetry,
                         )
-                    if log_level:
-                        print(f'Spectral functions were written to "{filename}".')
+                        if log_level:
+                            print(f'Spectral functions were written to "{filename}".')
 
             if write_hdf5:
                 filename = write_spectral_function_to_hdf5(
@@ -168,9 +168,9 @@ def run_spectral_function(
                     filename=output_filename,
                 )
 
-            if log_level:
-                print(f'Spectral functions were stored in "{filename}".')
-                sys.stdout.flush()
+                if log_level:
+                    print(f'Spectral functions were stored in "{filename}".')
+                    sys.stdout.flush()
 
     return spf
 
-- 
2.43.0


From db828240a858525898d08a1ab4166c31b1235ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:04 +0000
Subject: [PATCH 09/74] fix: store all band indices with the spectral functions

---
 phono3py/phonon3/spectral_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon3/spectral_function.py b/phono3py/phonon3/spectral_function.py
index bf900b9..fccc511 100644
--- a/phono3py/phonon3/spectral_function.py
+++ b/phono3py/phonon3/spectral_function.py
@@ -154,7 +154,7 @@ def run_spectral_function(
             if write_hdf5:
                 filename = write_spectral_function_to_hdf5(
                     gp,
-                    bi,
+                    interaction.band_indices,
                     temperatures,
                     spf.spectral_functions[sigma_i, :, i],
                     spf.shifts[sigma_i, :, i],
-- 
2.43.0


From 3f9316da6d5b52e5bfafe37e7a1b55b72cafc781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:32 +0000
Subject: [PATCH 10/74] fix: initialise attributes that public getters return
 before run

---
 phono3py/api_isotope.py  | 5 +++++
 phono3py/api_jointdos.py | 1 +
 phono3py/api_phono3py.py | 1 +
 phono3py/sscha/sscha.py  | 2 ++
 4 files changed, 9 insertions(+)

diff --git a/phono3py/api_isotope.py b/phono3py/api_isotope.py
index 95af8e9..7bc6936 100644
--- a/phono3py/api_isotope.py
+++ b/phono3py/api_isotope.py
@@ -64,6 +64,9 @@ class Phono3pyIsotope:
         else:
             self._sigmas = sigmas
 
+        self._gamma = None
+        self._grid_points = None
+
         self._iso = Isotope(
             mesh,
             primitive,
@@ -94,6 +97,8 @@ class Phono3pyIsotope:
     @property
     def frequencies(self):
         """Return phonon frequencies at grid points."""
+        if self._grid_points is None:
+            return None
         return self._iso.get_phonons()[0][self._grid_points]
 
     @property
diff --git a/phono3py/api_jointdos.py b/phono3py/api_jointdos.py
index 33b08da..030a58c 100644
--- a/phono3py/api_jointdos.py
+++ b/phono3py/api_jointdos.py
@@ -100,6 +100,7 @@ class Phono3pyJointDos:
 
         self._bz_grid = None
         self._joint_dos = None
+        self._frequency_points = None
         self._num_frequency_points_in_batch = num_points_in_batch
         self._frequency_step = frequency_step
         self._num_frequency_points = num_frequency_points
diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 52eed4f..7fb681c 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -283,6 +283,7 @@ class Phono3py:
 
         # Imaginary part of self energy at frequency points
         self._gammas = None
+        self._detailed_gammas = None
         self._scattering_event_class = None
 
         # Frequency shift (real part of bubble diagram)
diff --git a/phono3py/sscha/sscha.py b/phono3py/sscha/sscha.py
index 37ebe28..38cfb2e 100644
--- a/phono3py/sscha/sscha.py
+++ b/phono3py/sscha/sscha.py
@@ -196,6 +196,7 @@ class DispCorrMatrix:
         self._psi_matrix = None
         self._upsilon_matrix = None
         self._determinant = None
+        self._prefactor = None
 
     def run(self, T):
         """Calculate displacement correlation matrix from supercell phonon.
@@ -384,6 +385,7 @@ class SecondOrderFC:
         f = np.array(forces.reshape(shape[0], -1), dtype="double", order="C")
         self._displacements = u
         self._forces = f
+        self._fc2 = None
         self._uu = DispCorrMatrix(supercell_phonon, cutoff_frequency=cutoff_frequency)
         self._force_constants = supercell_phonon.force_constants
         self._cutoff_frequency = cutoff_frequency
-- 
2.43.0


From f63b32df0166a7f3eec3c91085981105d29b8e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:32 +0000
Subject: [PATCH 11/74] fix: initialise sigma_cutoff of ImagSelfEnergy

---
 phono3py/phonon3/imag_self_energy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phono3py/phonon3/imag_self_energy.py b/phono3py/phonon3/imag_self_energy.py
index 5df9a1c..f455a85 100644
--- a/phono3py/phonon3/imag_self_energy.py
+++ b/phono3py/phonon3/imag_self_energy.py
@@ -77,6 +77,7 @@ class ImagSelfEnergy:
         """
         self._pp = interaction
         self._sigma = None
+        self._sigma_cutoff = None
         self._temperature = None
         self._frequency_points = None
         self._grid_point = None
-- 
2.43.0


From edb9d91f59cd4bbe2747c3da69baa36ccc6ffa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:32 +0000
Subject: [PATCH 12/74] fix: give CollisionMatrix num_ir_grid_points a None
 default

---
 phono3py/phonon3/collision_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon3/collision_matrix.py b/phono3py/phonon3/collision_matrix.py
index 21b569f..d0cbc36 100644
--- a/phono3py/phonon3/collision_matrix.py
+++ b/phono3py/phonon3/collision_matrix.py
@@ -55,7 +55,7 @@ class CollisionMatrix(ImagSelfEnergy):
         self,
         interaction: Interaction,
         rotations_cartesian=None,
-        num_ir_grid_points=Optional[int],
+        num_ir_grid_points: Optional[int] = None,
         rot_grid_points=None,
         is_reducible_collision_matrix=False,
         log_level=0,
-- 
2.43.0


From ecca78915dcd3e5865660eaf8784892456f261b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:40 +0000
Subject: [PATCH 13/74] fix: do not add cutoff to the caller's
 fc_calculator_options

---
 phono3py/interface/fc_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/interface/fc_calculator.py b/phono3py/interface/fc_calculator.py
index cb783c0..0d8b6f3 100644
--- a/phono3py/interface/fc_calculator.py
+++ b/phono3py/interface/fc_calculator.py
@@ -153,7 +153,7 @@ def update_cutoff_fc_calculator_options(
             raise RuntimeError("fc_calculator_options should be str, dict, or None.")
 
         if isinstance(fc_calc_opts, dict) and "cutoff" not in fc_calc_opts:
-            fc_calc_opts["cutoff"] = float(cutoff_pair_distance)
+            fc_calc_opts = dict(fc_calc_opts, cutoff=float(cutoff_pair_distance))
         elif isinstance(fc_calc_opts, str) and "cutoff" not in fc_calc_opts:
             fc_calc_opts = f"{fc_calc_opts}, cutoff = {cutoff_pair_distance}"
         elif fc_calc_opts is None:
-- 
2.43.0


From c789d2618d3d1343aab51a3b3bb4f1e35338869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:40 +0000
Subject: [PATCH 14/74] fix: keep nac_q_direction of Interaction as it was
 given

---
 phono3py/phonon3/interaction.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 700c4e3..8961198 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -594,8 +594,7 @@ class Interaction:
             ).all() and self._nac_q_direction is not None:
                 rotations = []
                 for i, r in enumerate(self._bz_grid.reciprocal_operations):
-                    dq = self._nac_q_direction
-                    dq /= np.linalg.norm(dq)
+                    dq = self._nac_q_direction / np.linalg.norm(self._nac_q_direction)
                     diff = np.dot(r, dq) - dq
                     if (abs(diff) < 1e-5).all():
                         rotations.append(self._bz_grid.rotations[i])
-- 
2.43.0


From c0618bcfd00ab708406211e0862d9684ead12b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:57 +0000
Subject: [PATCH 15/74] fix: write joint DOS of every temperature

---
 phono3py/api_jointdos.py | 12 ++++++++----
 phono3py/file_IO.py      |  4 +++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/phono3py/api_jointdos.py b/phono3py/api_jointdos.py
index 030a58c..d9b6196 100644
--- a/phono3py/api_jointdos.py
+++ b/phono3py/api_jointdos.py
@@ -286,7 +286,7 @@ class Phono3pyJointDos:
                         self._joint_dos[i_s, i_t, freq_indices] = self._jdos.joint_dos
 
                     if write_jdos:
-                        filename = self._write(gp, i_sigma=i_s)
+                        filename = self._write(gp, i_sigma=i_s, i_temp=i_t)
                         if self._log_level:
                             print('JDOS is written into "%s".' % filename)
 
@@ -305,14 +305,18 @@ class Phono3pyJointDos:
         """Return calculated joint-density-of-states."""
         return self._joint_dos
 
-    def _write(self, gp, i_sigma=0):
+    def _write(self, gp, i_sigma=0, i_temp=0):
+        if self._temperatures is None:
+            temperatures = None
+        else:
+            temperatures = [self._temperatures[i_temp]]
         return write_joint_dos(
             gp,
             self._bz_grid.D_diag,
             self._frequency_points,
-            self._joint_dos[i_sigma],
+            self._joint_dos[i_sigma, [i_temp]],
             sigma=self._sigmas[i_sigma],
-            temperatures=self._temperatures,
+            temperatures=temperatures,
             filename=self._filename,
             is_mesh_symmetry=self._is_mesh_symmetry,
         )
diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 62d43c4..ffb8439 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -523,8 +523,9 @@ def write_joint_dos(
             is_mesh_symmetry=is_mesh_symmetry,
         )
     else:
+        jdos_filename = None
         for jdos_at_t, t in zip(jdos, temperatures):
-            return _write_joint_dos_at_t(
+            jdos_filename = _write_joint_dos_at_t(
                 gp,
                 mesh,
                 frequencies,
@@ -534,6 +535,7 @@ def write_joint_dos(
                 filename=filename,
                 is_mesh_symmetry=is_mesh_symmetry,
             )
+        return jdos_filename
 
 
 def _write_joint_dos_at_t(
-- 
2.43.0


From 24605bfc8d343c7b0814b3f524cf36d2b1ce672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:57 +0000
Subject: [PATCH 16/74] fix: use filename in write_real_self_energy_to_hdf5

---
 phono3py/file_IO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index ffb8439..f8ae132 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -636,6 +636,8 @@ def write_real_self_energy_to_hdf5(
         full_filename += "-e" + _del_zeros(epsilon)
     else:
         full_filename += "-e%.3e" % epsilon
+    if filename is not None:
+        full_filename += f".{filename}"
     full_filename += ".hdf5"
 
     with h5py.File(full_filename, "w") as w:
-- 
2.43.0


From b683ec41b1a612c4d29c6231c32e541ba93506d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:13 +0000
Subject: [PATCH 17/74] fix: use given file name and forces in write_FORCES_FC2
 and write_FORCES_FC3 for type-2 datasets

---
 phono3py/file_IO.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index f8ae132..1940004 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -212,14 +212,14 @@ def write_FORCES_FC2(disp_dataset, forces_fc2=None, fp=None, filename="FORCES_FC
             for forces in force_set:
                 w.write("%15.10f %15.10f %15.10f\n" % tuple(forces))
     else:
-        if "forces" in disp_dataset:
-            write_FORCE_SETS(disp_dataset, filename="FORCES_FC2")
+        if "forces" in disp_dataset and forces_fc2 is None:
+            write_FORCE_SETS(disp_dataset, filename=filename)
         else:
             if forces_fc2 is None:
                 raise RuntimeError("No forces are found.")
             dataset = disp_dataset.copy()
             dataset["forces"] = forces_fc2
-            write_FORCE_SETS(dataset, filename="FORCES_FC2")
+            write_FORCE_SETS(dataset, filename=filename)
 
     if fp is None:
         w.close()
@@ -244,14 +244,14 @@ def write_FORCES_FC3(
         else:
             _write_FORCES_FC3_typeI(disp_dataset, fp, forces_fc3=forces_fc3)
     else:
-        if "forces" in disp_dataset:
-            write_FORCE_SETS(disp_dataset, filename="FORCES_FC3")
+        if "forces" in disp_dataset and forces_fc3 is None:
+            write_FORCE_SETS(disp_dataset, filename=filename)
         else:
             if forces_fc3 is None:
                 raise RuntimeError("No forces are found.")
             dataset = disp_dataset.copy()
             dataset["forces"] = forces_fc3
-            write_FORCE_SETS(dataset, filename="FORCES_FC3")
+            write_FORCE_SETS(dataset, filename=filename)
 
 
 def _write_FORCES_FC3_typeI(
-- 
2.43.0


From 5c0f00d7f05551f896bde4e7a4c91dc1d655fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:51 +0000
Subject: [PATCH 18/74] fix: load the compressed MLP file that was found

---
 phono3py/cui/create_force_constants.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index 2e7ddb7..59ae511 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -548,12 +548,12 @@ def run_pypolymlp_to_compute_forces(
                 ".xz",
                 ".gz",
                 ".bz2",
-                "lzma",
+                ".lzma",
             ]:
                 continue
             if log_level:
-                print(f'Load MLPs from "{mlp_filename}".')
-            ph3py.load_mlp(mlp_filename)
+                print(f'Load MLPs from "{_mlp_filename}".')
+            ph3py.load_mlp(_mlp_filename)
             mlp_loaded = True
             if log_level and mlp_filename == "phono3py.pmlp":
                 print(f'Loading MLPs from "{_mlp_filename}" is obsolete.')
-- 
2.43.0


From d38b3e4c29dc4267c56b9194ad725738c39c116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:51 +0000
Subject: [PATCH 19/74] fix: use mlp_filename of
 run_pypolymlp_to_compute_forces

---
 phono3py/cui/create_force_constants.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index 59ae511..3c264bc 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -537,8 +537,13 @@ def run_pypolymlp_to_compute_forces(
         print("Pypolymlp is developed at https://github.com/sekocha/pypolymlp.")
 
     mlp_loaded = False
-    for mlp_filename in ["polymlp.yaml", "phono3py.pmlp"]:
-        _mlp_filename_list = list(pathlib.Path().glob(f"{mlp_filename}*"))
+    if mlp_filename is None:
+        mlp_filename_candidates = ["polymlp.yaml", "phono3py.pmlp"]
+        mlp_filename = "polymlp.yaml"
+    else:
+        mlp_filename_candidates = [mlp_filename]
+    for candidate in mlp_filename_candidates:
+        _mlp_filename_list = list(pathlib.Path().glob(f"{candidate}*"))
         if _mlp_filename_list:
             _mlp_filename = _mlp_filename_list[0]
             print(_mlp_filename)
@@ -555,11 +560,10 @@ def run_pypolymlp_to_compute_forces(
                 print(f'Load MLPs from "{_mlp_filename}".')
             ph3py.load_mlp(_mlp_filename)
             mlp_loaded = True
-            if log_level and mlp_filename == "phono3py.pmlp":
+            if log_level and candidate == "phono3py.pmlp":
                 print(f'Loading MLPs from "{_mlp_filename}" is obsolete.')
             break
 
-    mlp_filename = "polymlp.yaml"
     if not mlp_loaded:
         if forces_in_dataset(ph3py.mlp_dataset):
             if log_level:
-- 
2.43.0


From e4b77f383308d6765d20b0a301a7aaf0993e9524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:51 +0000
Subject: [PATCH 20/74] fix: use calculator of the displacement file for
 FORCES_FC2

---
 phono3py/cui/create_force_sets.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index 7f9af7e..06a64ef 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -267,7 +267,6 @@ def _get_force_sets_fc2(
     interface_mode: Optional[str],
     log_level: int,
 ) -> dict:
-    interface_mode = settings.calculator
     if log_level:
         print(f'FC2 displacement dataset was read from "{disp_filename}".')
 
-- 
2.43.0


From 979d9edf95c4fe6f92aaf974f2f7c002095f2b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:40 +0000
Subject: [PATCH 21/74] fix: use --tolerance when reading wien2k forces

---
 phono3py/cui/create_force_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index 06a64ef..403ce17 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -392,7 +392,7 @@ def _get_force_sets_fc3(
                 supercell,
                 disp_dataset,
                 #                wien2k_P1_mode=wien2k_P1_mode,
-                #                symmetry_tolerance=symmetry_tolerance,
+                symmetry_tolerance=settings.symmetry_tolerance,
                 verbose=(log_level > 0),
             )
         else:
-- 
2.43.0


From ef1a435c9f713d1a8d2a70b09e1b2b86fb91d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:40 +0000
Subject: [PATCH 22/74] fix: respect --nosym in joint density of states runs

---
 phono3py/cui/phono3py_script.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phono3py/cui/phono3py_script.py b/phono3py/cui/phono3py_script.py
index 996374c..9edd9ba 100644
--- a/phono3py/cui/phono3py_script.py
+++ b/phono3py/cui/phono3py_script.py
@@ -761,6 +761,7 @@ def run_jdos_then_exit(
         frequency_factor_to_THz=updated_settings["frequency_factor_to_THz"],
         frequency_scale_factor=updated_settings["frequency_scale_factor"],
         use_grg=settings.use_grg,
+        is_symmetry=settings.is_symmetry,
         is_mesh_symmetry=settings.is_mesh_symmetry,
         symprec=phono3py.symmetry.tolerance,
         output_filename=output_filename,
-- 
2.43.0


From f95af80cd490a229b89b8b6528d93317705ee820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:05 +0000
Subject: [PATCH 23/74] fix: skip only the band below cutoff in Kubo
 conductivity

---
 phono3py/conductivity/rta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index 1771f5e..b1c2ab3 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -929,7 +929,7 @@ class ConductivityKuboRTA(ConductivityKuboMixIn, ConductivityRTABase):
         cvm = self._cv_mat[k, i_gp]
         for j_band, freq in enumerate(frequencies):
             if freq < self._pp.cutoff_frequency:
-                return
+                continue
 
             g = g_sum[i_band] + g_sum[j_band]
             for i_pair, _ in enumerate(
-- 
2.43.0


From d2e3c13a824187b4681df6054c27c9af2ecba0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:23 +0000
Subject: [PATCH 24/74] fix: write kappa of the Kubo formula to the kappa file

---
 phono3py/conductivity/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index f7a66dc..fabf28e 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -224,7 +224,11 @@ class ConductivityRTAWriter:
         log_level: int = 0,
     ):
         """Write kappa related properties into a hdf5 file."""
-        from phono3py.conductivity.rta import ConductivityRTA, ConductivityWignerRTA
+        from phono3py.conductivity.rta import (
+            ConductivityKuboRTA,
+            ConductivityRTA,
+            ConductivityWignerRTA,
+        )
 
         temperatures = br.temperatures
         sigmas = br.sigmas
@@ -241,6 +245,11 @@ class ConductivityRTAWriter:
             mode_kappa = br.mode_kappa
             gv = br.group_velocities
             gv_by_gv = br.gv_by_gv
+        elif isinstance(br, ConductivityKuboRTA):
+            kappa = br.kappa
+            mode_kappa = None
+            gv = None
+            gv_by_gv = None
         else:
             kappa = None
             mode_kappa = None
-- 
2.43.0


From 3e08cbeb435c59d3b970f750d0a3c8135105aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:23 +0000
Subject: [PATCH 25/74] fix: write all triplets to gamma-detail files of
 selected bands, too

---
 phono3py/conductivity/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index fabf28e..b8c58f8 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -402,6 +402,7 @@ class ConductivityRTAWriter:
                         grid_point=gp,
                         triplet=triplets,
                         weight=weights,
+                        triplet_all=all_triplets,
                         band_index=bi,
                         sigma=sigma,
                         sigma_cutoff=sigma_cutoff,
-- 
2.43.0


From fdcaede8d7f0634b869e7f9ddb1f5f8107d2c0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:23 +0000
Subject: [PATCH 26/74] fix: write gamma in Kubo mode without mode heat
 capacities

---
 phono3py/conductivity/utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index b8c58f8..ed57cab 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -105,6 +105,10 @@ class ConductivityRTAWriter:
             mode_heat_capacities = br.mode_heat_capacities
         else:
             mode_heat_capacities = None
+        if mode_heat_capacities is None:
+            mode_heat_capacities_i = None
+        else:
+            mode_heat_capacities_i = mode_heat_capacities[:, i]
         ave_pp = br.averaged_pp_interaction
         mesh = br.mesh_numbers
         bz_grid = br.bz_grid
@@ -145,7 +149,7 @@ class ConductivityRTAWriter:
                     group_velocity=group_velocities_i,
                     gv_by_gv=gv_by_gv_i,
                     velocity_operator=velocity_operator_i,
-                    heat_capacity=mode_heat_capacities[:, i],
+                    heat_capacity=mode_heat_capacities_i,
                     gamma=gamma[j, :, i],
                     gamma_isotope=gamma_isotope_at_sigma,
                     gamma_N=gamma_N_at_sigma,
@@ -174,6 +178,10 @@ class ConductivityRTAWriter:
                         gv_by_gv_ik = None
                     else:
                         gv_by_gv_ik = gv_by_gv_i[k]
+                    if mode_heat_capacities_i is None:
+                        mode_heat_capacities_ik = None
+                    else:
+                        mode_heat_capacities_ik = mode_heat_capacities_i[:, k]
                     if ave_pp is None:
                         ave_pp_ik = None
                     else:
@@ -199,7 +207,7 @@ class ConductivityRTAWriter:
                         group_velocity=group_velocities_ik,
                         gv_by_gv=gv_by_gv_ik,
                         velocity_operator=velocity_operator_ik,
-                        heat_capacity=mode_heat_capacities[:, i, k],
+                        heat_capacity=mode_heat_capacities_ik,
                         gamma=gamma[j, :, i, k],
                         gamma_isotope=gamma_isotope_at_sigma,
                         gamma_N=gamma_N_at_sigma,
-- 
2.43.0


From ef8843ede757c5214758fb203c59dfd9b47ead4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 27/74] fix: keep the linewidths of all temperatures read from
 a full collision file

---
 phono3py/conductivity/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index ed57cab..c9caab5 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -1064,7 +1064,7 @@ def set_collision_from_file(
                 # The following invokes self._allocate_values()
                 lbte.temperatures = temperatures
             lbte.collision_matrix[i_sigma] = colmat_at_sigma[0]
-            lbte.gamma[i_sigma] = gamma_at_sigma[0]
+            lbte.gamma[i_sigma] = gamma_at_sigma
             read_from = "full_matrix"
         else:
             vals = _allocate_collision(
-- 
2.43.0


From 09c2899e2f60d5d1a5ab921cef8ed2a429dd24ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 28/74] fix: keep all temperatures and notice missing files
 when reading collisions of bands

---
 phono3py/conductivity/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index c9caab5..8231cd2 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -1255,7 +1255,7 @@ def _collect_collision_band(
     if log_level:
         sys.stdout.flush()
 
-    if collision_band is False:
+    if not collision_band:
         return False
 
     (colmat_at_band, gamma_at_band, temperatures_at_band) = collision_band
@@ -1263,7 +1263,7 @@ def _collect_collision_band(
         igp = bzg2grg[gp]
     else:
         igp = i
-    gamma_at_sigma[:, igp, j] = gamma_at_band[0]
+    gamma_at_sigma[:, igp, j] = gamma_at_band
     colmat_at_sigma[:, igp, j] = colmat_at_band[0]
     temperatures[:] = temperatures_at_band
 
-- 
2.43.0


From 14ba72a6732cd869ac8c7abd958ba96c6035e66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 29/74] fix: give the reciprocal lattice to the search for BZ
 triplets, which read it uninitialised

---
 c/_phono3py.cpp              | 9 ++++++---
 c/gridsys.c                  | 2 ++
 c/phono3py.c                 | 3 ++-
 c/phono3py.h                 | 3 ++-
 phono3py/phonon/grid.py      | 5 +++++
 phono3py/phonon3/triplets.py | 1 +
 6 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/c/_phono3py.cpp b/c/_phono3py.cpp
index a5f9735..a19e7e5 100644
--- a/c/_phono3py.cpp
+++ b/c/_phono3py.cpp
@@ -800,6 +800,7 @@ int64_t py_tpl_get_BZ_triplets_at_q(nb::ndarray<> py_triplets,
                                     nb::ndarray<> py_bz_map,
                                     nb::ndarray<> py_map_triplets,
                                     nb::ndarray<> py_D_diag, nb::ndarray<> py_Q,
+                                    nb::ndarray<> py_reciprocal_lattice,
                                     int64_t bz_grid_type) {
     int64_t(*triplets)[3];
     int64_t(*bz_grid_address)[3];
@@ -808,6 +809,7 @@ int64_t py_tpl_get_BZ_triplets_at_q(nb::ndarray<> py_triplets,
     int64_t num_map_triplets;
     int64_t *D_diag;
     int64_t(*Q)[3];
+    double(*reciprocal_lattice)[3];
     int64_t num_ir;
 
     triplets = (int64_t(*)[3])py_triplets.data();
@@ -817,10 +819,11 @@ int64_t py_tpl_get_BZ_triplets_at_q(nb::ndarray<> py_triplets,
     num_map_triplets = (int64_t)py_map_triplets.shape(0);
     D_diag = (int64_t *)py_D_diag.data();
     Q = (int64_t(*)[3])py_Q.data();
+    reciprocal_lattice = (double(*)[3])py_reciprocal_lattice.data();
 
-    num_ir = ph3py_get_BZ_triplets_at_q(triplets, grid_point, bz_grid_address,
-                                        bz_map, map_triplets, num_map_triplets,
-                                        D_diag, Q, bz_grid_type);
+    num_ir = ph3py_get_BZ_triplets_at_q(
+        triplets, grid_point, bz_grid_address, bz_map, map_triplets,
+        num_map_triplets, D_diag, Q, reciprocal_lattice, bz_grid_type);
 
     return num_ir;
 }
diff --git a/c/gridsys.c b/c/gridsys.c
index 2cdf225..5063b83 100644
--- a/c/gridsys.c
+++ b/c/gridsys.c
@@ -242,6 +242,8 @@ int64_t gridsys_get_bz_triplets_at_q(
         bzgrid->PS[i] = 0;
         for (j = 0; j < 3; j++) {
             bzgrid->Q[i][j] = Q[i][j];
+            /* Lattice is not given. All G-vectors are handled equally. */
+            bzgrid->reclat[i][j] = 0;
         }
     }
     bzgrid->size = num_map_triplets;
diff --git a/c/phono3py.c b/c/phono3py.c
index 93679f1..3c9a59c 100644
--- a/c/phono3py.c
+++ b/c/phono3py.c
@@ -411,7 +411,7 @@ int64_t ph3py_get_BZ_triplets_at_q(
     const int64_t (*bz_grid_addresses)[3], const int64_t *bz_map,
     const int64_t *map_triplets, const int64_t num_map_triplets,
     const int64_t D_diag[3], const int64_t Q[3][3],
-    const int64_t bz_grid_type) {
+    const double reciprocal_lattice[3][3], const int64_t bz_grid_type) {
     RecgridConstBZGrid *bzgrid;
     int64_t i, j, num_ir;
 
@@ -429,6 +429,7 @@ int64_t ph3py_get_BZ_triplets_at_q(
         bzgrid->PS[i] = 0;
         for (j = 0; j < 3; j++) {
             bzgrid->Q[i][j] = Q[i][j];
+            bzgrid->reclat[i][j] = reciprocal_lattice[i][j];
         }
     }
     bzgrid->size = num_map_triplets;
diff --git a/c/phono3py.h b/c/phono3py.h
index 15f2d51..774be24 100644
--- a/c/phono3py.h
+++ b/c/phono3py.h
@@ -170,7 +170,8 @@ int64_t ph3py_get_BZ_triplets_at_q(
     int64_t (*triplets)[3], const int64_t grid_point,
     const int64_t (*bz_grid_addresses)[3], const int64_t *bz_map,
     const int64_t *map_triplets, const int64_t num_map_triplets,
-    const int64_t D_diag[3], const int64_t Q[3][3], const int64_t bz_grid_type);
+    const int64_t D_diag[3], const int64_t Q[3][3],
+    const double reciprocal_lattice[3][3], const int64_t bz_grid_type);
 int64_t ph3py_get_integration_weight(
     double *iw, char *iw_zero, const double *frequency_points,
     const int64_t num_band0, const int64_t relative_grid_address[24][4][3],
diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index 6f44d72..3d99436 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -272,6 +272,11 @@ class BZGrid:
         """
         return self._QDinv
 
+    @property
+    def reciprocal_lattice(self):
+        """Reciprocal basis vectors in column vectors."""
+        return self._reciprocal_lattice
+
     @property
     def PS(self):
         """Integer shift vectors of GRGrid."""
diff --git a/phono3py/phonon3/triplets.py b/phono3py/phonon3/triplets.py
index b1c3621..6182f4e 100644
--- a/phono3py/phonon3/triplets.py
+++ b/phono3py/phonon3/triplets.py
@@ -335,6 +335,7 @@ def _get_BZ_triplets_at_q(bz_grid_index, bz_grid: BZGrid, map_triplets):
         map_triplets,
         np.array(bz_grid.D_diag, dtype="int64"),
         bz_grid.Q,
+        np.array(bz_grid.reciprocal_lattice, dtype="double", order="C"),
         bz_grid.store_dense_gp_map * 1 + 1,
     )
 
-- 
2.43.0


From 003a3f3ca41282a7926d40013b767199b29d82c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 30/74] fix: read isotope linewidths from gamma files of grid
 points and bands

---
 phono3py/conductivity/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 8231cd2..2b7b57e 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -806,8 +806,8 @@ def set_gamma_from_file(
                     if verbose:
                         print("Read data from %s." % full_filename)
                     gamma[j, :, i] = data_gp["gamma"]
-                    if "gamma_iso" in data_gp:
-                        gamma_iso[j, i] = data_gp["gamma_iso"]
+                    if "gamma_isotope" in data_gp:
+                        gamma_iso[j, i] = data_gp["gamma_isotope"]
                     if "gamma_N" in data_gp:
                         is_gamma_N_U_in = True
                         gamma_N[j, :, i] = data_gp["gamma_N"]
@@ -834,8 +834,8 @@ def set_gamma_from_file(
                             if verbose:
                                 print("Read data from %s." % full_filename)
                             gamma[j, :, i, bi] = data_band["gamma"]
-                            if "gamma_iso" in data_band:
-                                gamma_iso[j, i, bi] = data_band["gamma_iso"]
+                            if "gamma_isotope" in data_band:
+                                gamma_iso[j, i, bi] = data_band["gamma_isotope"]
                             if "gamma_N" in data_band:
                                 is_gamma_N_U_in = True
                                 gamma_N[j, :, i, bi] = data_band["gamma_N"]
-- 
2.43.0


From 9e9f2ab0759ed3eff96cea8eb1a2d2d4c429cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 31/74] fix: use gammas and collision matrix read from files
 instead of computing them again

---
 phono3py/conductivity/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 2b7b57e..e11252b 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -1142,6 +1142,9 @@ def set_collision_from_file(
                             return False
             read_from = "grid_points"
 
+    # This lets lbte know that gamma and collision_matrix are already given.
+    lbte.gamma = lbte.gamma
+
     return read_from
 
 
-- 
2.43.0


From 98c80dd1045c936f769643bb8908da736be16e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 32/74] fix: select temperatures when reading collisions at
 grid points, too

---
 phono3py/file_IO.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 1940004..184a188 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -1148,7 +1148,10 @@ def read_collision_from_hdf5(
 
     if only_temperatures:
         with h5py.File(full_filename, "r") as f:
-            temperatures = np.array(f["temperature"][:], dtype="double")
+            if indices == "all":
+                temperatures = np.array(f["temperature"][:], dtype="double")
+            else:
+                temperatures = np.array(f["temperature"][indices], dtype="double")
             return None, None, temperatures
 
     with h5py.File(full_filename, "r") as f:
-- 
2.43.0


From a128f0fbed6ea283a920a8697b0e312be7b25227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 33/74] fix: let FC3_R0_AVERAGE tag take effect unless --v2 is
 given

---
 phono3py/cui/settings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phono3py/cui/settings.py b/phono3py/cui/settings.py
index a70bc77..f08982e 100644
--- a/phono3py/cui/settings.py
+++ b/phono3py/cui/settings.py
@@ -57,7 +57,7 @@ class Phono3pySettings(Settings):
         "ion_clamped": False,
         "is_bterta": False,
         "is_compact_fc": False,
-        "is_fc3_r0_average": False,
+        "is_fc3_r0_average": True,
         "is_full_pp": False,
         "is_gruneisen": False,
         "is_imag_self_energy": False,
@@ -467,8 +467,8 @@ class Phono3pyConfParser(ConfParser):
                 self._confs["gruneisen"] = ".true."
 
         if "is_fc3_r0_average" in self._args:
-            if self._args.is_fc3_r0_average:
-                self._confs["fc3_r0_average"] = ".true."
+            if not self._args.is_fc3_r0_average:
+                self._confs["fc3_r0_average"] = ".false."
 
         if "is_full_pp" in self._args:
             if self._args.is_full_pp:
-- 
2.43.0


From a357d74abf77da5a2e9f60c8f4892dbb3374de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 34/74] fix: let --pp-unit-conversion take effect

---
 phono3py/cui/phono3py_argparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/cui/phono3py_argparse.py b/phono3py/cui/phono3py_argparse.py
index 369bfc0..9677b24 100644
--- a/phono3py/cui/phono3py_argparse.py
+++ b/phono3py/cui/phono3py_argparse.py
@@ -635,7 +635,7 @@ def get_parser(fc_symmetry=False, is_nac=False, load_phono3py_yaml=False):
     )
     parser.add_argument(
         "--pp-unit-conversion",
-        dest="pp_unit_conversion",
+        dest="pp_conversion_factor",
         type=float,
         default=None,
         help="Conversion factor for ph-ph interaction",
-- 
2.43.0


From 5d255cef67ded686079d51b54dd826fb36c939e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 35/74] fix: let N_U and WRITE_LBTE_SOLUTION tags take effect

---
 phono3py/cui/settings.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/phono3py/cui/settings.py b/phono3py/cui/settings.py
index f08982e..2fa3bf0 100644
--- a/phono3py/cui/settings.py
+++ b/phono3py/cui/settings.py
@@ -496,7 +496,7 @@ class Phono3pyConfParser(ConfParser):
 
         if "is_N_U" in self._args:
             if self._args.is_N_U:
-                self._confs["N_U"] = ".true."
+                self._confs["n_u"] = ".true."
 
         if "is_plusminus_displacements_fc2" in self._args:
             if self._args.is_plusminus_displacements_fc2:
@@ -666,7 +666,7 @@ class Phono3pyConfParser(ConfParser):
 
         if "write_LBTE_solution" in self._args:
             if self._args.write_LBTE_solution:
-                self._confs["write_LBTE_solution"] = ".true."
+                self._confs["write_lbte_solution"] = ".true."
 
     def _parse_conf(self):
         ConfParser.parse_conf(self)
@@ -688,7 +688,7 @@ class Phono3pyConfParser(ConfParser):
                 "write_collision",
                 "write_phonon",
                 "write_pp",
-                "write_LBTE_solution",
+                "write_lbte_solution",
                 "full_pp",
                 "ion_clamped",
                 "bterta",
@@ -701,7 +701,7 @@ class Phono3pyConfParser(ConfParser):
                 "isotope",
                 "joint_dos",
                 "lbte",
-                "N_U",
+                "n_u",
                 "spectral_function",
                 "reducible_collision_matrix",
                 "show_symfc_memory_usage",
@@ -950,8 +950,8 @@ class Phono3pyConfParser(ConfParser):
             self._settings.set_num_points_in_batch(params["num_points_in_batch"])
 
         # Calculate Normal and Umklapp processes
-        if "N_U" in params:
-            self._settings.set_is_N_U(params["N_U"])
+        if "n_u" in params:
+            self._settings.set_is_N_U(params["n_u"])
 
         # Plus minus displacement for fc2
         if "pm_fc2" in params:
@@ -1100,5 +1100,5 @@ class Phono3pyConfParser(ConfParser):
             self._settings.set_write_pp(params["write_pp"])
 
         # Write direct solution of LBTE to hdf5 files
-        if "write_LBTE_solution" in params:
-            self._settings.set_write_LBTE_solution(params["write_LBTE_solution"])
+        if "write_lbte_solution" in params:
+            self._settings.set_write_LBTE_solution(params["write_lbte_solution"])
-- 
2.43.0


From 690dd0e0d6267d67ded491a38d50cd75f991875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 36/74] fix: keep fc3_r0_average off where no command-line
 option is parsed

---
 phono3py/cui/settings.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phono3py/cui/settings.py b/phono3py/cui/settings.py
index 2fa3bf0..c3ec523 100644
--- a/phono3py/cui/settings.py
+++ b/phono3py/cui/settings.py
@@ -57,7 +57,7 @@ class Phono3pySettings(Settings):
         "ion_clamped": False,
         "is_bterta": False,
         "is_compact_fc": False,
-        "is_fc3_r0_average": True,
+        "is_fc3_r0_average": False,
         "is_full_pp": False,
         "is_gruneisen": False,
         "is_imag_self_energy": False,
@@ -379,6 +379,9 @@ class Phono3pyConfParser(ConfParser):
     def __init__(self, filename=None, args=None, default_settings=None):
         """Init method."""
         self._settings = Phono3pySettings(default=default_settings)
+        if args is not None and "is_fc3_r0_average" in args:
+            # Default of commands, which FC3_R0_AVERAGE tag and --v2 can change.
+            self._settings.set_is_fc3_r0_average(True)
         confs = {}
         if filename is not None:
             super().__init__(filename=filename)
-- 
2.43.0


From 1eec194ce6767842c196337c390fcaaa769aa779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 37/74] fix: raise when FORCES_FC2 cannot be parsed, as for
 FORCES_FC3

---
 phono3py/file_IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 184a188..80ddd53 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -1621,7 +1621,7 @@ def parse_FORCES_FC2(disp_dataset, filename="FORCES_FC2", unit_conversion_factor
         for _ in range(num_disp):
             forces = _parse_force_lines(f2, num_atom)
             if forces is None:
-                return []
+                raise RuntimeError("Failed to parse %s." % filename)
             else:
                 forces_fc2.append(forces)
 
-- 
2.43.0


From 40ba953e5b5a94d0ec13245bf1286caa90dc4743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 38/74] fix: raise when collisions to be read are not available

---
 phono3py/conductivity/direct_solution.py | 3 +--
 phono3py/conductivity/rta.py             | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 4e689c5..1e02d9b 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -1778,8 +1778,7 @@ def get_thermal_conductivity_LBTE(
             log_level=log_level,
         )
         if not read_from:
-            print("Reading collision failed.")
-            return False
+            raise RuntimeError("Reading collision failed.")
         if log_level:
             temps_read = lbte.temperatures
             if len(temps_read) > 5:
diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index b1c2ab3..fab4f3b 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -1073,8 +1073,7 @@ def get_thermal_conductivity_RTA(
 
     if read_gamma:
         if not set_gamma_from_file(br, filename=input_filename):
-            print("Reading collisions failed.")
-            return False
+            raise RuntimeError("Reading collisions failed.")
 
     for i in br:
         if write_pp:
-- 
2.43.0


From c282467646533088278f74b971be8bdc454c06c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 39/74] fix: fail when isotope data of an element is missing

---
 phono3py/cui/phono3py_script.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/cui/phono3py_script.py b/phono3py/cui/phono3py_script.py
index 9edd9ba..f6e1155 100644
--- a/phono3py/cui/phono3py_script.py
+++ b/phono3py/cui/phono3py_script.py
@@ -1270,8 +1270,8 @@ def main(**argparse_control):
                 in_database = False
         if not in_database:
             if log_level:
-                print_end_phono3py()
-            sys.exit(0)
+                print_error()
+            sys.exit(1)
 
     #########################################
     # Phonon-isotope lifetime and then exit #
-- 
2.43.0


From 88189025ed2dd385a60a67dec3962543aef7fd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 40/74] fix: raise when a grid matrix is given for a non
 primitive cell

---
 phono3py/phonon/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index 3d99436..3f64c8c 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -691,7 +691,7 @@ class GridMatrix:
                     )
                 self._D_diag = np.array(mesh_numbers, dtype="int64")
         if num_values == 9:
-            self._run_grg(
+            found_grg = self._run_grg(
                 symmetry_dataset,
                 transformation_matrix,
                 None,
@@ -699,6 +699,8 @@ class GridMatrix:
                 force_SNF,
                 coordinates,
             )
+            if not found_grg:
+                raise RuntimeError("Grid matrix cannot be used for non primitive cell.")
         if num_values == 3:
             self._D_diag = np.array(mesh, dtype="int64")
 
-- 
2.43.0


From cd4d741bb330f9ba7fb51497e140dccc2c5e840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 41/74] fix: report a missing dataset before converting its
 units

---
 phono3py/cui/create_force_constants.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index 3c264bc..80faaab 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -267,6 +267,9 @@ def parse_forces(
             if dataset:
                 filename_read_from = force_filename
 
+    if dataset is None:
+        raise RuntimeError("Dataset is not found.")
+
     # Units of displacements and forces are converted. If forces don't
     # exist, the conversion will not be performed for forces.
     if calculator is not None:
@@ -275,9 +278,6 @@ def parse_forces(
             distance_to_A=physical_units["distance_to_A"],
             force_to_eVperA=physical_units["force_to_eVperA"],
         )
-    if dataset is None:
-        raise RuntimeError("Dataset is not found.")
-
     if "natom" in dataset and dataset["natom"] != natom:
         raise RuntimeError(
             "Number of atoms in supercell is not consistent with "
-- 
2.43.0


From ffb095bd3b3b17d8210e254960a074ac4d1c7398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 42/74] fix: discard integration weights when grid point or
 frequency points change

---
 phono3py/phonon3/collision_matrix.py | 2 +-
 phono3py/phonon3/imag_self_energy.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/phono3py/phonon3/collision_matrix.py b/phono3py/phonon3/collision_matrix.py
index d0cbc36..f0ae152 100644
--- a/phono3py/phonon3/collision_matrix.py
+++ b/phono3py/phonon3/collision_matrix.py
@@ -128,7 +128,7 @@ class CollisionMatrix(ImagSelfEnergy):
             self._grid_point = None
         else:
             self._pp.set_grid_point(grid_point, store_triplets_map=True)
-            self._pp_strength = None
+            self.delete_integration_weights()
             (
                 self._triplets_at_q,
                 self._weights_at_q,
diff --git a/phono3py/phonon3/imag_self_energy.py b/phono3py/phonon3/imag_self_energy.py
index f455a85..90710e1 100644
--- a/phono3py/phonon3/imag_self_energy.py
+++ b/phono3py/phonon3/imag_self_energy.py
@@ -235,7 +235,7 @@ class ImagSelfEnergy:
             self._grid_point = None
         else:
             self._pp.set_grid_point(grid_point)
-            self._pp_strength = None
+            self.delete_integration_weights()
             (self._triplets_at_q, self._weights_at_q) = self._pp.get_triplets_at_q()[:2]
             self._grid_point = grid_point
             self._frequencies, self._eigenvectors, _ = self._pp.get_phonons()
@@ -265,6 +265,8 @@ class ImagSelfEnergy:
             self._frequency_points = None
         else:
             self._frequency_points = np.array(frequency_points, dtype="double")
+        self._g = None
+        self._g_zero = None
 
     def set_frequency_points(self, frequency_points):
         """Set frequency points where spectrum calculation will be performed."""
-- 
2.43.0


From 03a7680f33c05db1a9a1a68c160b082d79ef2c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 43/74] fix: recompute phonons at Gamma when dynamical matrix
 is replaced

---
 phono3py/phonon3/interaction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 8961198..d5814f6 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -1040,6 +1040,8 @@ class Interaction:
             (num_grid, num_band, num_band), dtype=complex_dtype, order="C"
         )
         gp_Gamma = self._bz_grid.gp_Gamma
+        self._frequencies_at_gamma = None
+        self._eigenvectors_at_gamma = None
         self.run_phonon_solver_at_gamma()
         self._frequencies_at_gamma = self._frequencies[gp_Gamma].copy()
         self._eigenvectors_at_gamma = self._eigenvectors[gp_Gamma].copy()
-- 
2.43.0


From 860d36f2b43fdf031c178d31e2fbe86676509022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 44/74] fix: do not keep triplets map of a previous grid point

---
 phono3py/phonon3/interaction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index d5814f6..5e24320 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -662,6 +662,9 @@ class Interaction:
         if store_triplets_map:
             self._triplets_map_at_q = triplets_map_at_q
             self._ir_map_at_q = ir_map_at_q
+        else:
+            self._triplets_map_at_q = None
+            self._ir_map_at_q = None
 
     def init_dynamical_matrix(
         self,
-- 
2.43.0


From 6e69921867329a27604399b1586cb9f904feac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 45/74] fix: recompute phonons of isotope calculation when
 dynamical matrix is replaced

---
 phono3py/other/isotope.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phono3py/other/isotope.py b/phono3py/other/isotope.py
index 5903c8a..9d24a34 100644
--- a/phono3py/other/isotope.py
+++ b/phono3py/other/isotope.py
@@ -233,6 +233,8 @@ class Isotope:
             frequency_scale_factor=frequency_scale_factor,
             decimals=decimals,
         )
+        if self._phonon_done is not None:
+            self._allocate_phonon()
 
     def set_nac_q_direction(self, nac_q_direction=None):
         """Set q-direction at q->0 used for NAC."""
-- 
2.43.0


From 5fd6cabb7f7091f39a47db66a8751ab936c298fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 46/74] fix: let NAC q-direction of isotope calculation be
 unset

---
 phono3py/other/isotope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phono3py/other/isotope.py b/phono3py/other/isotope.py
index 9d24a34..eb33065 100644
--- a/phono3py/other/isotope.py
+++ b/phono3py/other/isotope.py
@@ -238,7 +238,9 @@ class Isotope:
 
     def set_nac_q_direction(self, nac_q_direction=None):
         """Set q-direction at q->0 used for NAC."""
-        if nac_q_direction is not None:
+        if nac_q_direction is None:
+            self._nac_q_direction = None
+        else:
             self._nac_q_direction = np.array(nac_q_direction, dtype="double")
 
     def _run_c(self):
-- 
2.43.0


From 97e58b17299509adfae545ab95d60eecf55da9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 47/74] fix: discard interaction made from replaced force
 constants, masses or bands

---
 phono3py/api_phono3py.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 7fb681c..b601a11 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -345,6 +345,7 @@ class Phono3py:
     @fc3.setter
     def fc3(self, fc3):
         self._fc3 = fc3
+        self._interaction = None
 
     @property
     def fc2(self) -> Optional[np.ndarray]:
@@ -362,6 +363,7 @@ class Phono3py:
     @fc2.setter
     def fc2(self, fc2):
         self._fc2 = fc2
+        self._interaction = None
 
     @property
     def force_constants(self) -> Optional[np.ndarray]:
@@ -741,6 +743,7 @@ class Phono3py:
     @band_indices.setter
     def band_indices(self, band_indices):
         self._set_band_indices(band_indices=band_indices)
+        self._interaction = None
 
     def _set_band_indices(self, band_indices=None):
         if band_indices is None:
@@ -771,6 +774,7 @@ class Phono3py:
         p2p_map = self._phonon_primitive.p2p_map
         s_masses = p_masses[[p2p_map[x] for x in self._phonon_primitive.s2p_map]]
         self._phonon_supercell.masses = s_masses
+        self._interaction = None
 
     @property
     def supercells_with_displacements(self) -> list[PhonopyAtoms]:
@@ -1511,6 +1515,7 @@ class Phono3py:
                         symmetrize_force_constants(fc2)
 
         # Set fc2 and fc3
+        self._interaction = None
         self._fc3 = fc3
 
         # fc2 as obtained above will not be set when "|" in fc-calculator setting.
@@ -1564,6 +1569,7 @@ class Phono3py:
         if not forces_in_dataset(disp_dataset):
             raise RuntimeError("Forces are not set in the dataset.")
 
+        self._interaction = None
         self._fc2 = get_fc2(
             self._phonon_supercell,
             disp_dataset,
-- 
2.43.0


From 5987594e68d4eccf01f12f70a53764e9a0d495fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 48/74] fix: initialize joint DOS with the grid of the mesh
 given

---
 phono3py/api_jointdos.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/phono3py/api_jointdos.py b/phono3py/api_jointdos.py
index d9b6196..7b8aeae 100644
--- a/phono3py/api_jointdos.py
+++ b/phono3py/api_jointdos.py
@@ -99,6 +99,7 @@ class Phono3pyJointDos:
         self._log_level = log_level
 
         self._bz_grid = None
+        self._jdos = None
         self._joint_dos = None
         self._frequency_points = None
         self._num_frequency_points_in_batch = num_points_in_batch
@@ -148,6 +149,7 @@ class Phono3pyJointDos:
 
     @mesh_numbers.setter
     def mesh_numbers(self, mesh_numbers):
+        self._jdos = None
         self._bz_grid = BZGrid(
             mesh_numbers,
             lattice=self._primitive.cell,
@@ -161,6 +163,7 @@ class Phono3pyJointDos:
 
     def initialize(self, mesh_numbers):
         """Initialize JointDos."""
+        self.mesh_numbers = mesh_numbers
         self._jdos = JointDos(
             self._primitive,
             self._supercell,
@@ -177,10 +180,6 @@ class Phono3pyJointDos:
         )
         if self._log_level:
             print("Generating grid system ... ", end="", flush=True)
-
-        self.mesh_numbers = mesh_numbers
-
-        if self._log_level:
             if self._bz_grid.grid_matrix is None:
                 print("[ %d %d %d ]" % tuple(self._bz_grid.D_diag))
             else:
@@ -196,6 +195,13 @@ class Phono3pyJointDos:
 
     def run(self, grid_points, write_jdos=False):
         """Calculate joint-density-of-states."""
+        if self._jdos is None:
+            msg = (
+                "Phono3pyJointDos.initialize has to be called "
+                "before running this method."
+            )
+            raise RuntimeError(msg)
+
         if self._log_level:
             print(
                 "--------------------------------- Joint DOS "
-- 
2.43.0


From b9ce721c0b2a503ec652b82062207816fae44b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 49/74] fix: check phonon MLP, not MLP, before saving it

---
 phono3py/api_phono3py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index b601a11..bd2e90f 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2310,7 +2310,7 @@ class Phono3py:
 
     def save_phonon_mlp(self, filename: Optional[str] = None):
         """Save machine learning potential."""
-        if self._mlp is None:
+        if self._phonon_mlp is None:
             raise RuntimeError("MLP is not developed yet.")
 
         self._phonon_mlp.save(filename=filename)
-- 
2.43.0


From 8aa8aaea4ab44df9185db4d611f3bae7cf581453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 50/74] fix: report missing supercell energies in MLP dataset

---
 phono3py/api_phono3py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index bd2e90f..d4b95d4 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2715,7 +2715,7 @@ class Phono3py:
             raise RuntimeError("Displacements have to be given.")
         if "forces" not in mlp_dataset:
             raise RuntimeError("Forces have to be given.")
-        if "supercell_energy" in mlp_dataset:
+        if "supercell_energies" not in mlp_dataset:
             raise RuntimeError("Supercell energies have to be given.")
         if len(mlp_dataset["displacements"]) != len(mlp_dataset["forces"]):
             raise RuntimeError("Length of displacements and forces are different.")
-- 
2.43.0


From 3431fb96710aca8bb400928da19f341dcdef79d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 51/74] fix: report missing dataset when forces or energies are
 set

---
 phono3py/api_phono3py.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index d4b95d4..e6b0e85 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2607,6 +2607,9 @@ class Phono3py:
     def _set_forces_energies(
         self, values, target: Literal["forces", "supercell_energies"]
     ):
+        if self._dataset is None:
+            raise RuntimeError("Dataset for fc3 does not exist.")
+
         if "first_atoms" in self._dataset:  # type-1
             count = 0
             for disp1 in self._dataset["first_atoms"]:
-- 
2.43.0


From 6a26dde2e0425572e3783957ce49976aa98b2930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 52/74] fix: report missing displacements when supercells are
 built

---
 phono3py/api_phono3py.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index e6b0e85..59f6224 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2467,6 +2467,9 @@ class Phono3py:
         return supercells
 
     def _build_supercells_with_displacements(self):
+        if self._dataset is None:
+            raise RuntimeError("Displacements are not set. Run generate_displacements.")
+
         magmoms = self._supercell.magnetic_moments
         masses = self._supercell.masses
         numbers = self._supercell.numbers
-- 
2.43.0


From 983750d742908ec60c631432ae376595bb06ce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 53/74] fix: report missing forces or fc3 before they are used

---
 phono3py/api_phono3py.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 59f6224..2532eb7 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -1488,6 +1488,9 @@ class Phono3py:
             Options for external force constants calculator.
 
         """
+        if not forces_in_dataset(self._dataset):
+            raise RuntimeError("Forces are not set in the dataset.")
+
         fc_solver = get_fc3_solver(
             self._supercell,
             self._primitive,
@@ -1608,6 +1611,8 @@ class Phono3py:
             _fc3 = self._fc3
         else:
             _fc3 = fc3
+        if _fc3 is None:
+            raise RuntimeError("Phono3py.fc3 of instance is not found.")
         cutoff_fc3_by_zero(
             _fc3,
             self._supercell,
-- 
2.43.0


From 5932cf7f989af2cd5e709a94d8c2cd215690b6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 54/74] fix: check prerequisites of joint DOS before use

---
 phono3py/api_jointdos.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/phono3py/api_jointdos.py b/phono3py/api_jointdos.py
index 7b8aeae..eeed788 100644
--- a/phono3py/api_jointdos.py
+++ b/phono3py/api_jointdos.py
@@ -202,6 +202,9 @@ class Phono3pyJointDos:
             )
             raise RuntimeError(msg)
 
+        if not self._sigmas:
+            raise RuntimeError("sigma or tetrahedron method has to be set.")
+
         if self._log_level:
             print(
                 "--------------------------------- Joint DOS "
@@ -262,9 +265,6 @@ class Phono3pyJointDos:
                 for f in self._jdos.get_phonons()[0][gp]:
                     print("%8.3f" % f)
 
-            if not self._sigmas:
-                raise RuntimeError("sigma or tetrahedron method has to be set.")
-
             for i_s, sigma in enumerate(self._sigmas):
                 self._jdos.sigma = sigma
                 if self._log_level:
@@ -299,6 +299,8 @@ class Phono3pyJointDos:
     @property
     def dynamical_matrix(self):
         """Return DynamicalMatrix class instance."""
+        if self._jdos is None:
+            return None
         return self._jdos.dynamical_matrix
 
     @property
-- 
2.43.0


From 537aff961a7e5be1eb09b234e8f06db0d593801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 55/74] fix: reject phonon data of inconsistent grid addresses

---
 phono3py/phonon3/interaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 5e24320..5fc55d8 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -698,7 +698,7 @@ class Interaction:
                 "Input grid address size is inconsistent. Setting phonons failed."
             )
 
-        if (self._bz_grid.addresses - bz_grid_addresses).all():
+        if (self._bz_grid.addresses - bz_grid_addresses).any():
             raise RuntimeError(
                 "Input grid addresses are inconsistent. Setting phonons failed."
             )
-- 
2.43.0


From 04f928043698173867c03fc18da23b5e1c1ecd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 56/74] fix: reject transformation matrix whose inverse is not
 an integer matrix

---
 phono3py/phonon/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index 3f64c8c..a455205 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -747,7 +747,7 @@ class GridMatrix:
         """
         tmat_inv = np.linalg.inv(transformation_matrix)
         tmat_inv_int = np.rint(tmat_inv).astype(int)
-        if (tmat_inv - tmat_inv_int > 1e-8).all():
+        if (np.abs(tmat_inv - tmat_inv_int) > 1e-8).any():
             msg = "Inverse of transformation matrix has to be an integer matrix."
             raise RuntimeError(msg)
         if determinant(tmat_inv_int) < 0:
-- 
2.43.0


From 7fe49c7ab82c01637e2749bfee8b62269c359944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 57/74] fix: report missing fc3 before ph-ph interaction
 calculation

---
 phono3py/phonon3/interaction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 5fc55d8..e89afab 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -118,6 +118,7 @@ class Interaction:
         self._frequency_factor_to_THz = frequency_factor_to_THz
         self._frequency_scale_factor = frequency_scale_factor
 
+        self._fc3 = None
         if fc3 is not None:
             self._set_fc3(fc3)
 
@@ -182,6 +183,9 @@ class Interaction:
         self, lang: Literal["C", "Python"] = "C", g_zero: Optional[np.ndarray] = None
     ):
         """Run ph-ph interaction calculation."""
+        if self._fc3 is None and self._constant_averaged_interaction is None:
+            raise RuntimeError("fc3 is necessary to calculate ph-ph interaction.")
+
         if (self._phonon_done == 0).any():
             self.run_phonon_solver()
 
-- 
2.43.0


From 8d12f1b424a820a67c39c99bde1b9fdf2957533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:06 +0000
Subject: [PATCH 58/74] fix: do not silently drop phonon data given before
 interaction is initialized

---
 phono3py/api_phono3py.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 2532eb7..365614f 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -1177,6 +1177,12 @@ class Phono3py:
         """
         if self._interaction is not None:
             self._interaction.set_phonon_data(frequencies, eigenvectors, grid_address)
+        else:
+            msg = (
+                "Phono3py.init_phph_interaction has to be called "
+                "before running this method."
+            )
+            raise RuntimeError(msg)
 
     def get_phonon_data(self):
         """Get phonon frequencies and eigenvectors in Interaction instance.
-- 
2.43.0


From e12d3bdb15112c5368ee0651f4a2937f56e6daf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 59/74] fix: exclude modes below cutoff frequency from heat
 capacity matrix

---
 phono3py/conductivity/kubo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/kubo.py b/phono3py/conductivity/kubo.py
index 34da628..f5d1f2a 100644
--- a/phono3py/conductivity/kubo.py
+++ b/phono3py/conductivity/kubo.py
@@ -73,11 +73,15 @@ class ConductivityKuboMixIn:
         irgp = self._grid_points[i_gp]
         freqs = self._frequencies[irgp] * THzToEv
         cutoff = self._pp.cutoff_frequency * THzToEv
+        bands = np.where(freqs > cutoff)[0]
 
         for i_temp, temp in enumerate(self._temperatures):
-            if (freqs / (temp * Kb) > 100).any():
+            if (freqs > 100 * temp * Kb).any():
                 continue
-            cvm = mode_cv_matrix(temp, freqs, cutoff=cutoff)
+            cvm = np.zeros((len(freqs), len(freqs)), dtype="double", order="C")
+            cvm[np.ix_(bands, bands)] = mode_cv_matrix(
+                temp, freqs[bands], cutoff=cutoff
+            )
             self._cv_mat[i_temp, i_data] = cvm[self._pp.band_indices, :]
 
     def _set_velocities(self, i_gp, i_data):
-- 
2.43.0


From 22ab31fbf7eba2362ef07eb5d972bdd1d0864345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 60/74] fix: exclude modes below cutoff frequency from isotope
 scattering in Python

---
 phono3py/other/isotope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/other/isotope.py b/phono3py/other/isotope.py
index eb33065..38aaa54 100644
--- a/phono3py/other/isotope.py
+++ b/phono3py/other/isotope.py
@@ -353,6 +353,9 @@ class Isotope:
         for bi in self._band_indices:
             vec0 = self._eigenvectors[self._grid_point][:, bi].conj()
             f0 = self._frequencies[self._grid_point][bi]
+            if f0 < self._cutoff_frequency:
+                t_inv.append(0.0)
+                continue
             ti_sum = 0.0
             for gp in self._bz_grid.grg2bzg:
                 for j, (f, vec) in enumerate(
-- 
2.43.0


From 2186b87227d8e63a7fe7e25739e1d29e295b12b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 61/74] fix: report missing fc3 before low-memory ph-ph
 calculation

---
 phono3py/conductivity/rta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index fab4f3b..7ddc2ea 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -333,6 +333,8 @@ class ConductivityRTABase(ConductivityBase):
             masses,
         ) = self._pp.get_primitive_and_supercell_correspondence()
         fc3 = self._pp.fc3
+        if fc3 is None:
+            raise RuntimeError("fc3 is necessary to calculate ph-ph interaction.")
         triplets_at_q, weights_at_q, _, _ = self._pp.get_triplets_at_q()
 
         if None in self._sigmas:
-- 
2.43.0


From 3e48a7d301bdfed5e45475afa47fea506c738ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 62/74] fix: reject out-of-range random seed instead of
 ignoring it

---
 phono3py/api_phono3py.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 365614f..f250778 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2708,17 +2708,17 @@ class Phono3py:
         random_seed: Optional[int] = None,
         max_distance: Optional[float] = None,
     ):
-        if random_seed is not None and random_seed >= 0 and random_seed < 2**32:
-            _random_seed = random_seed
-            dataset = {"random_seed": _random_seed}
-        else:
-            _random_seed = None
+        if random_seed is None:
             dataset = {}
+        elif random_seed >= 0 and random_seed < 2**32:
+            dataset = {"random_seed": random_seed}
+        else:
+            raise ValueError("random_seed has to be in the range of [0, 2**32).")
         d = get_random_displacements_dataset(
             number_of_snapshots,
             number_of_atoms,
             distance,
-            random_seed=_random_seed,
+            random_seed=random_seed,
             is_plusminus=is_plusminus,
             max_distance=max_distance,
         )
-- 
2.43.0


From 9ba2e41b77e2a9c7aabdce4d196af09a6a9fce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 63/74] fix: select MLP file independently of directory order

---
 phono3py/cui/create_force_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index 80faaab..47bba68 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -543,7 +543,7 @@ def run_pypolymlp_to_compute_forces(
     else:
         mlp_filename_candidates = [mlp_filename]
     for candidate in mlp_filename_candidates:
-        _mlp_filename_list = list(pathlib.Path().glob(f"{candidate}*"))
+        _mlp_filename_list = sorted(pathlib.Path().glob(f"{candidate}*"))
         if _mlp_filename_list:
             _mlp_filename = _mlp_filename_list[0]
             print(_mlp_filename)
-- 
2.43.0


From c777577a8501180b6655756dcefed54eb1d49b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 64/74] fix: use BZ grid points for frequencies in RTA of
 reducible collision matrix

---
 phono3py/conductivity/direct_solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 1e02d9b..3c26d65 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -1026,11 +1026,11 @@ class ConductivityLBTEBase(ConductivityBase):
             self._collision_matrix[i_sigma, i_temp].reshape(size, size)
         )
 
-        for gp in range(num_mesh_points):
+        for i, gp in enumerate(self._pp.bz_grid.grg2bzg):
             frequencies = self._frequencies[gp]
             for j, f in enumerate(frequencies):
                 if f > self._pp.cutoff_frequency:
-                    i_mode = gp * num_band + j
+                    i_mode = i * num_band + j
                     Y[i_mode, :] = X[i_mode, :] / v_diag[i_mode]
         # Putting self._rotations_cartesian is to symmetrize kappa.
         # None can be put instead for watching pure information.
-- 
2.43.0


From 32996fbee31406141abdcf15cce778c28ba0a1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 65/74] fix: store averaged ph-ph interaction at regular-grid
 points with reducible collision matrix

---
 phono3py/conductivity/direct_solution.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 3c26d65..ebce13c 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -519,7 +519,11 @@ class ConductivityLBTEBase(ConductivityBase):
                 self._collision.run_interaction(is_full_pp=self._is_full_pp)
 
             if self._is_full_pp and j == 0:
-                self._averaged_pp_interaction[i_gp] = self._pp.averaged_interaction
+                if self._is_reducible_collision_matrix:
+                    i_pp = self._pp.bz_grid.bzg2grg[self._grid_points[i_gp]]
+                else:
+                    i_pp = i_gp
+                self._averaged_pp_interaction[i_pp] = self._pp.averaged_interaction
 
             for k, t in enumerate(self._temperatures):
                 self._collision.temperature = t
@@ -646,11 +650,16 @@ class ConductivityLBTEBase(ConductivityBase):
             if self._is_isotope:
                 gamma_iso_irgp = self._gamma_iso[:, ir_gp, :].copy()
                 self._gamma_iso[:, ir_gp, :] = 0
+            if self._averaged_pp_interaction is not None:
+                ave_pp_irgp = self._averaged_pp_interaction[ir_gp].copy()
+                self._averaged_pp_interaction[ir_gp] = 0
             for j, r in enumerate(self._rotations_cartesian):
                 gp_r = rot_grid_points[j, ir_gp]
                 self._gamma[:, :, gp_r, :] += gamma_irgp / multi
                 if self._is_isotope:
                     self._gamma_iso[:, gp_r, :] += gamma_iso_irgp / multi
+                if self._averaged_pp_interaction is not None:
+                    self._averaged_pp_interaction[gp_r] += ave_pp_irgp / multi
                 self._cv[:, gp_r, :] += cv_irgp / multi
                 self._gv[gp_r] += np.dot(gv_irgp, r.T) / multi
 
@@ -1167,11 +1176,12 @@ class ConductivityLBTEBase(ConductivityBase):
         gp = self._grid_points[i]
         frequencies = self._frequencies[gp]
         if self._is_reducible_collision_matrix:
-            gv = self._gv[self._pp.bz_grid.bzg2grg[gp]]
+            i_data = self._pp.bz_grid.bzg2grg[gp]
         else:
-            gv = self._gv[i]
+            i_data = i
+        gv = self._gv[i_data]
         if self._is_full_pp:
-            ave_pp = self._averaged_pp_interaction[i]
+            ave_pp = self._averaged_pp_interaction[i_data]
             text = "Frequency     group velocity (x, y, z)     |gv|       Pqj"
         else:
             text = "Frequency     group velocity (x, y, z)     |gv|"
-- 
2.43.0


From fe44056148d7ab2e79736f38c9dad0baa22673ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 66/74] fix: show q-point of the grid point in log of RTA

---
 phono3py/conductivity/rta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index 7ddc2ea..4b9eec4 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -459,8 +459,8 @@ class ConductivityRTABase(ConductivityBase):
                     )
 
     def _show_log(self, i_gp):
-        q = self._get_qpoint_from_gp_index(i_gp)
         gp = self._grid_points[i_gp]
+        q = self._get_qpoint_from_gp_index(gp)
         frequencies = self._frequencies[gp][self._pp.band_indices]
         gv = self._gv[i_gp]
 
-- 
2.43.0


From f43aa67ad17d99c446c6dbce87ba06aabb9a5e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 67/74] fix: store detailed gamma at frequencies of bands under
 its own sigma

---
 phono3py/phonon3/imag_self_energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon3/imag_self_energy.py b/phono3py/phonon3/imag_self_energy.py
index 90710e1..0b42314 100644
--- a/phono3py/phonon3/imag_self_energy.py
+++ b/phono3py/phonon3/imag_self_energy.py
@@ -900,7 +900,7 @@ def _get_imag_self_energy_at_sigma(
             ise.run()
             gamma[j, k, i] = ise.imag_self_energy
             if write_gamma_detail or return_gamma_detail:
-                detailed_gamma_at_gp[k] = ise.detailed_imag_self_energy
+                detailed_gamma_at_gp_at_j[k] = ise.detailed_imag_self_energy
     else:
         run_ise_at_frequency_points_batch(
             i,
-- 
2.43.0


From 3d676387cffb33238e37924a76e2595c42e15338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 68/74] fix: return one detailed gamma array per grid point
 with several sigmas

---
 phono3py/phonon3/imag_self_energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/phonon3/imag_self_energy.py b/phono3py/phonon3/imag_self_energy.py
index 0b42314..3e1962d 100644
--- a/phono3py/phonon3/imag_self_energy.py
+++ b/phono3py/phonon3/imag_self_energy.py
@@ -869,8 +869,8 @@ def _get_imag_self_energy_at_gp(
                     'self energy is written in\n"%s".' % full_filename
                 )
 
-        if return_gamma_detail:
-            detailed_gamma.append(detailed_gamma_at_gp)
+    if return_gamma_detail:
+        detailed_gamma.append(detailed_gamma_at_gp)
 
 
 def _get_imag_self_energy_at_sigma(
-- 
2.43.0


From b5c961550e43268eb602810ab63c01bab3914493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 69/74] fix: use position in band indices for integration
 weights of isotope scattering in Python

---
 phono3py/other/isotope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/other/isotope.py b/phono3py/other/isotope.py
index 38aaa54..72f5830 100644
--- a/phono3py/other/isotope.py
+++ b/phono3py/other/isotope.py
@@ -350,7 +350,7 @@ class Isotope:
             self._set_integration_weights(lang="Py")
 
         t_inv = []
-        for bi in self._band_indices:
+        for i, bi in enumerate(self._band_indices):
             vec0 = self._eigenvectors[self._grid_point][:, bi].conj()
             f0 = self._frequencies[self._grid_point][bi]
             if f0 < self._cutoff_frequency:
@@ -368,7 +368,7 @@ class Isotope:
                         * self._mass_variances
                     )
                     if self._sigma is None:
-                        ti_sum += ti_sum_band * self._integration_weights[gp, bi, j]
+                        ti_sum += ti_sum_band * self._integration_weights[gp, i, j]
                     else:
                         ti_sum += ti_sum_band * gaussian(f0 - f, self._sigma)
             t_inv.append(np.pi / 2 / np.prod(self._bz_grid.D_diag) * f0**2 * ti_sum)
-- 
2.43.0


From cf3a7a877fe60e460d6d8b62bb6e4ab23836f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 70/74] fix: write detailed gamma of each sigma in its own file

---
 phono3py/conductivity/rta.py   | 15 +++++++++++----
 phono3py/conductivity/utils.py |  8 ++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index 4b9eec4..d665033 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -138,7 +138,11 @@ class ConductivityRTABase(ConductivityBase):
         self._gamma_U = gamma_U
 
     def get_gamma_detail_at_q(self):
-        """Return contribution of each triplet to gamma at current q-point."""
+        """Return contribution of each triplet to gamma at current q-point.
+
+        shape=(sigmas, temperatures, triplets, band0, band, band)
+
+        """
         return self._gamma_detail_at_q
 
     def get_number_of_ignored_phonon_modes(self):
@@ -289,10 +293,13 @@ class ConductivityRTABase(ConductivityBase):
 
             # Number of triplets depends on q-point.
             # So this is allocated each time.
-            if self._is_gamma_detail:
+            if self._is_gamma_detail and j == 0:
                 num_temp = len(self._temperatures)
                 self._gamma_detail_at_q = np.empty(
-                    ((num_temp,) + self._pp.get_interaction_strength().shape),
+                    (
+                        (len(self._sigmas), num_temp)
+                        + self._pp.get_interaction_strength().shape
+                    ),
                     dtype="double",
                     order="C",
                 )
@@ -309,7 +316,7 @@ class ConductivityRTABase(ConductivityBase):
                     self._gamma_N[j, k, i] = g_N
                     self._gamma_U[j, k, i] = g_U
                 if self._is_gamma_detail:
-                    self._gamma_detail_at_q[k] = (
+                    self._gamma_detail_at_q[j, k] = (
                         self._collision.get_detailed_imag_self_energy()
                     )
 
diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index e11252b..a3a639f 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -383,12 +383,12 @@ class ConductivityRTAWriter:
         all_triplets = get_all_triplets(gp, interaction.bz_grid)
 
         if all_bands_exist(interaction):
-            for sigma in sigmas:
+            for j, sigma in enumerate(sigmas):
                 write_gamma_detail_to_hdf5(
                     temperatures,
                     mesh,
                     bz_grid=bz_grid,
-                    gamma_detail=gamma_detail,
+                    gamma_detail=gamma_detail[j],
                     grid_point=gp,
                     triplet=triplets,
                     weight=weights,
@@ -400,13 +400,13 @@ class ConductivityRTAWriter:
                     verbose=verbose,
                 )
         else:
-            for sigma in sigmas:
+            for j, sigma in enumerate(sigmas):
                 for k, bi in enumerate(interaction.get_band_indices()):
                     write_gamma_detail_to_hdf5(
                         temperatures,
                         mesh,
                         bz_grid=bz_grid,
-                        gamma_detail=gamma_detail[:, :, k, :, :],
+                        gamma_detail=gamma_detail[j, :, :, k, :, :],
                         grid_point=gp,
                         triplet=triplets,
                         weight=weights,
-- 
2.43.0


From 9588700f844ff91f80811ce9786ee91a1f4ab160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 71/74] fix: keep included flag of displacement pairs with
 forces in phono3py.yaml

---
 phono3py/interface/phono3py_yaml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phono3py/interface/phono3py_yaml.py b/phono3py/interface/phono3py_yaml.py
index 2037985..cb821bc 100644
--- a/phono3py/interface/phono3py_yaml.py
+++ b/phono3py/interface/phono3py_yaml.py
@@ -247,6 +247,8 @@ class Phono3pyYamlLoader(PhonopyYamlLoaderBase):
             second_atom_dict["id"] = d2_id
         if "pair_distance" in d2:
             second_atom_dict["pair_distance"] = d2["pair_distance"]
+        if "included" in d2:
+            second_atom_dict["included"] = d2["included"]
         if "supercell_energy" in d2:
             second_atom_dict["supercell_energy"] = d2["supercell_energy"]
         disp2_id += 1
@@ -557,6 +559,9 @@ def _second_displacements_yaml_lines(dataset2, id_offset, with_forces=False):
                 disp2_id += 1
                 lines.append("  - atom: %4d" % (i + 1))
                 lines.append("    pair_distance: %.8f" % dataset2[j]["pair_distance"])
+                if "included" in dataset2[j]:
+                    included = dataset2[j]["included"]
+                    lines.append("    included: %s" % ("true" if included else "false"))
                 lines.append("    displacement:")
                 lines.append(
                     "      [ %19.16f, %19.16f, %19.16f ]"
-- 
2.43.0


From 1211bebc951abe339dd338d2deeb8c8838e28d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 72/74] fix: compute array offsets of pseudo-inverse in 64 bits

---
 c/lapack_wrapper.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/lapack_wrapper.c b/c/lapack_wrapper.c
index 8cadb94..63a921e 100644
--- a/c/lapack_wrapper.c
+++ b/c/lapack_wrapper.c
@@ -80,7 +80,7 @@ int phonopy_zheev(double *w, lapack_complex_double *a, const int n,
 
 int phonopy_pinv(double *data_out, const double *data_in, const int m,
                  const int n, const double cutoff) {
-    int i, j, k;
+    int64_t i, j, k;
     lapack_int info;
     double *s, *a, *u, *vt, *superb;
 
@@ -90,7 +90,7 @@ int phonopy_pinv(double *data_out, const double *data_in, const int m,
     vt = (double *)malloc(sizeof(double) * n * n);
     superb = (double *)malloc(sizeof(double) * (min(m, n) - 1));
 
-    for (i = 0; i < m * n; i++) {
+    for (i = 0; i < (int64_t)m * n; i++) {
         a[i] = data_in[i];
     }
 
@@ -98,7 +98,7 @@ int phonopy_pinv(double *data_out, const double *data_in, const int m,
                           (lapack_int)n, a, (lapack_int)n, s, u, (lapack_int)m,
                           vt, (lapack_int)n, superb);
 
-    for (i = 0; i < n * m; i++) {
+    for (i = 0; i < (int64_t)n * m; i++) {
         data_out[i] = 0;
     }
 
@@ -125,7 +125,7 @@ void phonopy_pinv_mt(double *data_out, int *info_out, const double *data_in,
                      const int num_thread, const int *row_nums,
                      const int max_row_num, const int column_num,
                      const double cutoff) {
-    int i;
+    int64_t i;
 
 #ifdef _OPENMP
 #pragma omp parallel for
-- 
2.43.0


From f63afa94e6453bb30526f4b09f958323e457e181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 73/74] fix: keep array extents of Darray in 64 bits

---
 c/phonoc_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/phonoc_array.h b/c/phonoc_array.h
index 8dcd51d..524f464 100644
--- a/c/phonoc_array.h
+++ b/c/phonoc_array.h
@@ -46,7 +46,7 @@ typedef struct {
 } Larray;
 
 typedef struct {
-    int dims[MAX_NUM_DIM];
+    int64_t dims[MAX_NUM_DIM];
     double *data;
 } Darray;
 
-- 
2.43.0


From 15841b6f063ad8ef8c1008bb3bc56286baea9bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:19 +0000
Subject: [PATCH 74/74] fix: GammaDOSsmearing used 0.1 whatever smearing width
 was given

---
 phono3py/other/kaccum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/other/kaccum.py b/phono3py/other/kaccum.py
index d3c43a3..390be8a 100644
--- a/phono3py/other/kaccum.py
+++ b/phono3py/other/kaccum.py
@@ -230,7 +230,7 @@ class GammaDOSsmearing:
                 max(self._frequency_points) - min(self._frequency_points)
             ) / 100
         else:
-            self._sigma = 0.1
+            self._sigma = sigma
         self._smearing_function = NormalDistribution(self._sigma)
         self._run_smearing_method()
 
-- 
2.43.0

