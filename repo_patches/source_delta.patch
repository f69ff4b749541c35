From 484501ae371f4af0f7aff45695a7274b85d1d467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 01/17] fix: flip the camber position along the span for the
 underwater (mirror) sail

---
 pySailingVLM/yacht_geometry/sail_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/yacht_geometry/sail_geometry.py b/pySailingVLM/yacht_geometry/sail_geometry.py
index 44e0f87..4fad021 100644
--- a/pySailingVLM/yacht_geometry/sail_geometry.py
+++ b/pySailingVLM/yacht_geometry/sail_geometry.py
@@ -89,7 +89,7 @@ class SailGeometry(BaseGeometry, ABC):
         sh0, sh1, sh2 = mesh.shape
         mesh = mesh.reshape(sh0*sh1, sh2)
         
-        mesh_underwater = make_airfoil_mesh([le_SW_underwater, le_NW_underwater],[self.__n_chordwise, self.__n_spanwise],fchords_vec, interpolated_distance_from_luff, np.flip(interpolated_camber))
+        mesh_underwater = make_airfoil_mesh([le_SW_underwater, le_NW_underwater],[self.__n_chordwise, self.__n_spanwise],fchords_vec, np.flip(interpolated_distance_from_luff), np.flip(interpolated_camber))
         ### zero mesh
         zero_mesh_under = np.swapaxes(mesh_underwater, 0, 1)
         panels_under_zero, _, _= make_panels_from_mesh_spanwise(zero_mesh_under)
-- 
2.43.0


From 70c39a0106e6faed4a5c5d89d6023a960f380efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 02/17] fix: apply the twist selected by LLT_twist instead of
 always the real twist

---
 pySailingVLM/yacht_geometry/sail_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/yacht_geometry/sail_geometry.py b/pySailingVLM/yacht_geometry/sail_geometry.py
index 4fad021..353d6fa 100644
--- a/pySailingVLM/yacht_geometry/sail_geometry.py
+++ b/pySailingVLM/yacht_geometry/sail_geometry.py
@@ -125,7 +125,7 @@ class SailGeometry(BaseGeometry, ABC):
                 'real_twist': initial_sail_twist_deg
             }
             sail_twist_deg = twist_dict[LLT_twist]
-            sail_twist_deg = np.hstack([initial_sail_twist_deg] * (sh1))
+            sail_twist_deg = np.hstack([sail_twist_deg] * (sh1))
             sail_twist_deg = sail_twist_deg.reshape(sh1, sh0).transpose().flatten()
 
             p2 = mesh[::sh1][-1]
-- 
2.43.0


From e933914739378eede7e40626f04afb7fe06a177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 03/17] fix: plot the lift data under the lift label and the
 drag data under the drag label

---
 pySailingVLM/runner/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index 8cd596d..e555420 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -89,6 +89,6 @@ def main():
     plot_cp(sail_set.zero_mesh, myvlm.p_coeffs, out.name)
     
     mean_cp, cl_data, cd_data = get_data_for_coeff_plot(myvlm, solver)
-    plot_section_coeff(cd_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
-    plot_section_coeff(cl_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
+    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
+    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
     
\ No newline at end of file
-- 
2.43.0


From 46f92568d97467b0c78b88d5d958ea92d8e4bb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 04/17] fix: report the apparent wind angle in the right
 quadrant

---
 pySailingVLM/results/inviscid_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/results/inviscid_flow.py b/pySailingVLM/results/inviscid_flow.py
index c223b38..05068bc 100644
--- a/pySailingVLM/results/inviscid_flow.py
+++ b/pySailingVLM/results/inviscid_flow.py
@@ -24,7 +24,7 @@ class InviscidFlowResults:
         self.V_induced_length = np.linalg.norm(self.V_induced_at_cp, axis=1)
         self.V_app_fs_at_cp = myvlm.V_app_fs_at_cp#V_app_fs
         self.V_app_fs_length = np.linalg.norm(self.V_app_fs_at_cp, axis=1)
-        self.AWA_app_fs = np.arctan(myvlm.V_app_fs_at_cp[:, 1] / myvlm.V_app_fs_at_cp[:, 0])
+        self.AWA_app_fs = np.arctan2(myvlm.V_app_fs_at_cp[:, 1], myvlm.V_app_fs_at_cp[:, 0])
   
         self.F_xyz = myvlm.force
         self.F_xyz_above_water, self.F_xyz_total = extract_above_water_quantities(self.F_xyz)
-- 
2.43.0


From 6954a86b14f4607c18b9647f0090adf32a4f6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 05/17] fix: take the keel moment about the same reference
 point as the sail moments

---
 pySailingVLM/results/inviscid_flow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySailingVLM/results/inviscid_flow.py b/pySailingVLM/results/inviscid_flow.py
index 05068bc..ed71b28 100644
--- a/pySailingVLM/results/inviscid_flow.py
+++ b/pySailingVLM/results/inviscid_flow.py
@@ -102,7 +102,9 @@ class InviscidFlowResults:
         self.M_total_above_water_in_centerline_csys = M_total_above_water_in_centerline_csys
 
     def estimate_heeling_moment_from_keel(self, underwater_centre_of_effort_xyz):
-        self.M_xyz_underwater_estimate_total = np.cross(underwater_centre_of_effort_xyz, -self.F_xyz_total)
+        # same reference point as the moments of the sails
+        r = underwater_centre_of_effort_xyz - np.asarray(self.csys_transformations.v_from_original_xyz_2_reference_csys_xyz)
+        self.M_xyz_underwater_estimate_total = np.cross(r, -self.F_xyz_total)
         self.M_centerline_csys_underwater_estimate_total = self.csys_transformations.from_xyz_to_centerline_csys([self.M_xyz_underwater_estimate_total])[0]
 
     def __iter__(self):
-- 
2.43.0


From 82e82d41772ef50494d6e5cdb256e3ef01e261f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 06/17] fix: express the centre of effort in the original csys
 when the moment reference is shifted

---
 pySailingVLM/results/inviscid_flow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySailingVLM/results/inviscid_flow.py b/pySailingVLM/results/inviscid_flow.py
index ed71b28..02def9b 100644
--- a/pySailingVLM/results/inviscid_flow.py
+++ b/pySailingVLM/results/inviscid_flow.py
@@ -92,7 +92,8 @@ class InviscidFlowResults:
 
         self.above_water_centre_of_effort_estimate_xyz \
             = determine_vector_from_its_dot_and_cross_product(
-                self.F_xyz_total, r_dot_F_total_above_water, self.M_total_above_water_in_xyz_csys)
+                self.F_xyz_total, r_dot_F_total_above_water, self.M_total_above_water_in_xyz_csys) \
+            + np.asarray(csys_transformations.v_from_original_xyz_2_reference_csys_xyz)  # back from the shifted csys
 
         self.F_centerline = csys_transformations.from_xyz_to_centerline_csys(myvlm.force)
         _, self.F_centerline_total = extract_above_water_quantities(self.F_centerline)
-- 
2.43.0


From d3bf0e9f85b17e0aeaecf10cd7e2de5ffa06a6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 07/17] fix: leave with a failing status when the input is
 rejected

---
 pySailingVLM/runner/cli.py    | 2 +-
 pySailingVLM/runner/sail.py   | 4 ++--
 pySailingVLM/solver/forces.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index e555420..b9e8d34 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -21,7 +21,7 @@ def load_variable_module(args):
         globals()['vr'] = __import__('variables')
     except ImportError as e:
         print(f'No variables.py file found in {args.dvars}\n{e}')
-        sys.exit(0)
+        sys.exit(1)
     
 def parse_cli():
 
diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index 28d131c..5b85e6f 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -52,7 +52,7 @@ class Wind:
                 raise ValueError("ERROR in flat mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
         except ValueError as err:
             print(err)
-            sys.exit()
+            sys.exit(1)
             
     def __get_profile(self):
         if self.conditions.wind_profile == 'exponential':
@@ -106,7 +106,7 @@ class Sail:
                 check_input_arr_shapes(main_stuff[1:], self.rig.sails_def)
         except ValueError as e:
             print(e)
-            sys.exit()
+            sys.exit(1)
 
     def __get_sail_set(self):
         
diff --git a/pySailingVLM/solver/forces.py b/pySailingVLM/solver/forces.py
index 38ea759..a594921 100644
--- a/pySailingVLM/solver/forces.py
+++ b/pySailingVLM/solver/forces.py
@@ -74,7 +74,7 @@ def calc_force_wrapper(V_app_infw: np.ndarray, gamma_magnitude: np.ndarray, rho:
             raise ValueError(f'Force name is not allowed. You can use one of these: {force_name_allowed}')
     except ValueError as e:
         print(e)
-        sys.exit()
+        sys.exit(1)
     
     # Katz and Plotkin, p. 346 Chapter 12 / Three-Dimensional Numerical Solution
     # f. Secondary Computations: Pressures, Loads, Velocities, Etc
-- 
2.43.0


From d55108465dfdcd855003e8fae313267159c112fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 08/17] fix: validate the exponential wind profile under its
 documented name

---
 pySailingVLM/runner/sail.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index 5b85e6f..d7acab7 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -46,8 +46,8 @@ class Wind:
         try: 
             if self.conditions.wind_profile == 'logarithmic' and None in [self.conditions.roughness, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in logarithmic mode!: Roughness or wind_reference_measurment_height badly defined!")
-            elif self.conditions.wind_profile == 'expotentional' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
-                raise ValueError("ERROR in expotentional mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
+            elif self.conditions.wind_profile == 'exponential' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
+                raise ValueError("ERROR in exponential mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
             elif self.conditions.wind_profile == 'flat' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in flat mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
         except ValueError as err:
-- 
2.43.0


From def47e9da16bb84dd129b24213431c21e21baa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 09/17] fix: reject an unknown wind profile instead of silently
 using the logarithmic one

---
 pySailingVLM/runner/sail.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index d7acab7..566dbda 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -50,6 +50,8 @@ class Wind:
                 raise ValueError("ERROR in exponential mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
             elif self.conditions.wind_profile == 'flat' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in flat mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
+            elif self.conditions.wind_profile not in ('exponential', 'flat', 'logarithmic'):
+                raise ValueError(f"ERROR: unknown wind_profile '{self.conditions.wind_profile}', allowed: 'exponential' or 'flat' or 'logarithmic'")
         except ValueError as err:
             print(err)
             sys.exit(1)
-- 
2.43.0


From fe06775a957f7c836d1ef438d24793815132230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 10/17] fix: include the chords when the sail input arrays are
 validated

---
 pySailingVLM/runner/sail.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index 566dbda..05a72a9 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -88,9 +88,9 @@ class Sail:
     def __post_init__(self):
         try:
             if self.jib_sail is not None:
-                jib_stuff = [self.rig.foretriangle_base, self.rig.foretriangle_height, self.rig.jib_luff, self.jib_sail.girths, self.jib_sail.centerline_twist_deg, self.jib_sail.camber, self.jib_sail.camber_distance_from_luff]
+                jib_stuff = [self.rig.foretriangle_base, self.rig.foretriangle_height, self.rig.jib_luff, self.jib_sail.girths, self.jib_sail.chords, self.jib_sail.centerline_twist_deg, self.jib_sail.camber, self.jib_sail.camber_distance_from_luff]
             if self.main_sail is not None:
-                main_stuff = [self.rig.main_sail_luff, self.main_sail.girths, self.main_sail.centerline_twist_deg, self.main_sail.camber, self.main_sail.camber_distance_from_luff]
+                main_stuff = [self.rig.main_sail_luff, self.main_sail.girths, self.main_sail.chords, self.main_sail.centerline_twist_deg, self.main_sail.camber, self.main_sail.camber_distance_from_luff]
             
             if self.rig.sails_def == 'jib' and check_list_for_none(jib_stuff): # if JIB and all vars are not NONE
                 raise ValueError('Not all JIB variables are speciified!')
-- 
2.43.0


From da808c755e6b125be2baf9e5d2a6117ce878bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 11/17] fix: reject an unknown sail set and a missing sail with
 a message

---
 pySailingVLM/runner/sail.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index 05a72a9..27ef77f 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -87,6 +87,9 @@ class Sail:
      
     def __post_init__(self):
         try:
+            if self.rig.sails_def not in ('jib', 'main', 'jib_and_main'):
+                raise ValueError(f"Unknown sails_def '{self.rig.sails_def}', allowed: 'jib' or 'main' or 'jib_and_main'")
+            jib_stuff = main_stuff = [None]
             if self.jib_sail is not None:
                 jib_stuff = [self.rig.foretriangle_base, self.rig.foretriangle_height, self.rig.jib_luff, self.jib_sail.girths, self.jib_sail.chords, self.jib_sail.centerline_twist_deg, self.jib_sail.camber, self.jib_sail.camber_distance_from_luff]
             if self.main_sail is not None:
-- 
2.43.0


From b66eb479374593655cbc52b0209582cf5d7aee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 12/17] fix: load variables.py from the directory given with
 -dv first

---
 pySailingVLM/runner/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index b9e8d34..86a6553 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -17,7 +17,7 @@ from pySailingVLM.solver.coefs import get_data_for_coeff_plot
 
 def load_variable_module(args):
     try:
-        sys.path.append(args.dvars)
+        sys.path.insert(0, args.dvars)
         globals()['vr'] = __import__('variables')
     except ImportError as e:
         print(f'No variables.py file found in {args.dvars}\n{e}')
-- 
2.43.0


From 00c0a3b57511c035225cc0e68c912510bbf16a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 13/17] fix: make the run containers importable on Python 3.11
 and later

---
 pySailingVLM/runner/container.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pySailingVLM/runner/container.py b/pySailingVLM/runner/container.py
index 869bc71..3fe02e2 100644
--- a/pySailingVLM/runner/container.py
+++ b/pySailingVLM/runner/container.py
@@ -67,10 +67,10 @@ class Rig:
 class MainSail:
     centerline_twist_deg: np.ndarray = None
     
-    girths: np.ndarray = np.array([0.00, 1./8, 1./4, 1./2, 3./4, 7./8, 1.00])
-    chords: np.ndarray = np.array([4.00, 3.82, 3.64, 3.20, 2.64, 2.32, 2.00])
-    camber: np.ndarray = 5*np.array([0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01])
-    camber_distance_from_luff: np.ndarray = np.array([0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5]) # starting from leading edge
+    girths: np.ndarray = field(default_factory=lambda: np.array([0.00, 1./8, 1./4, 1./2, 3./4, 7./8, 1.00]))
+    chords: np.ndarray = field(default_factory=lambda: np.array([4.00, 3.82, 3.64, 3.20, 2.64, 2.32, 2.00]))
+    camber: np.ndarray = field(default_factory=lambda: 5*np.array([0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01]))
+    camber_distance_from_luff: np.ndarray = field(default_factory=lambda: np.array([0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5])) # starting from leading edge
     
     def __post_init__(self):
         if self.centerline_twist_deg is None:
@@ -80,10 +80,10 @@ class MainSail:
 class JibSail:
     centerline_twist_deg: np.ndarray = None
     
-    girths: np.ndarray = np.array([0.00, 1./4, 1./2, 3./4, 1.00])
-    chords: np.ndarray =np.array([3.80, 2.98, 2.15, 1.33, 0.5])
-    camber: np.ndarray = 0*np.array([0.01, 0.01, 0.01, 0.01, 0.01])
-    camber_distance_from_luff: np.ndarray = np.array([0.5, 0.5, 0.5, 0.5, 0.5]) # starting from leading edge   
+    girths: np.ndarray = field(default_factory=lambda: np.array([0.00, 1./4, 1./2, 3./4, 1.00]))
+    chords: np.ndarray = field(default_factory=lambda: np.array([3.80, 2.98, 2.15, 1.33, 0.5]))
+    camber: np.ndarray = field(default_factory=lambda: 0*np.array([0.01, 0.01, 0.01, 0.01, 0.01]))
+    camber_distance_from_luff: np.ndarray = field(default_factory=lambda: np.array([0.5, 0.5, 0.5, 0.5, 0.5])) # starting from leading edge   
     def __post_init__(self):
         if self.centerline_twist_deg is None:
             self.centerline_twist_deg = 15. * self.girths + 7
@@ -103,7 +103,7 @@ class JibSail:
 # heeling_reference [m] - distance from the water level,  at which the heeling moment is calculated.
 @dataclass
 class Csys:
-    reference_level_for_moments: np.ndarray =  np.array([0, 0, 0])  # [yaw_reference, sway_reference, heeling_reference]
+    reference_level_for_moments: np.ndarray = field(default_factory=lambda: np.array([0, 0, 0]))  # [yaw_reference, sway_reference, heeling_reference]
 
 
 # GEOMETRY OF THE KEEL
@@ -111,4 +111,4 @@ class Csys:
 # reminder: the z coord shall be negative (under the water)
 @dataclass
 class Keel:
-    center_of_lateral_resistance_upright: np.ndarray =  np.array([0, 0, -1.0])  # [m] the coordinates for a yacht standing in upright position
+    center_of_lateral_resistance_upright: np.ndarray = field(default_factory=lambda: np.array([0, 0, -1.0]))  # [m] the coordinates for a yacht standing in upright position
-- 
2.43.0


From bc92d877e1af4f86c6978137a0214ab63ae8a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 14/17] fix: color the panels by circulation when that is what
 the title says

---
 pySailingVLM/solver/panels_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/solver/panels_plotter.py b/pySailingVLM/solver/panels_plotter.py
index ee058b8..da13706 100644
--- a/pySailingVLM/solver/panels_plotter.py
+++ b/pySailingVLM/solver/panels_plotter.py
@@ -86,7 +86,7 @@ def display_panels_xyz(vlm : Vlm, color_panels_by : str) -> Tuple[plt.axes, int]
 
     data = None
     if color_panels_by == 'gamma_magnitude':
-        data = vlm.pressure
+        data = vlm.gamma_magnitude
     elif color_panels_by == 'p_coeffs':
         data = vlm.p_coeffs
     else:
-- 
2.43.0


From f38b496df66557222812909aa142f664a7ac0bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 15/17] fix: label the section coefficients of a single main
 sail as the main sail

---
 pySailingVLM/runner/cli.py            | 4 ++--
 pySailingVLM/solver/panels_plotter.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index 86a6553..4d85065 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -89,6 +89,6 @@ def main():
     plot_cp(sail_set.zero_mesh, myvlm.p_coeffs, out.name)
     
     mean_cp, cl_data, cd_data = get_data_for_coeff_plot(myvlm, solver)
-    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
-    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
+    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'], [sail.name for sail in sail_set.sails])
+    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'], [sail.name for sail in sail_set.sails])
     
\ No newline at end of file
diff --git a/pySailingVLM/solver/panels_plotter.py b/pySailingVLM/solver/panels_plotter.py
index da13706..df7423a 100644
--- a/pySailingVLM/solver/panels_plotter.py
+++ b/pySailingVLM/solver/panels_plotter.py
@@ -369,7 +369,7 @@ def plot_cp(mesh : np.ndarray, p_coeffs : np.ndarray, path_to_save : str):
     except NameError:
         hv.save(hvpolys, path_to_save + '/cp_plot.html', backend='bokeh')
         
-def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name: str, colors : list):
+def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name: str, colors : list, labels : list = None):
     
     allowed_names = ('lift', 'drag')
     try:
@@ -384,7 +384,7 @@ def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name:
     ax1 = fig.add_subplot(111)
     
     l = len(y_data)
-    lbs = ['jib', 'main']
+    lbs = ['jib', 'main'] if labels is None else labels
     markers = ["o", "^"]
     
     c_name = 'cl'
-- 
2.43.0


From f404e0f22e90db12b9215d9ae6513e901b470263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 16/17] fix: take the lift of the free wing across its span,
 not along it

---
 pySailingVLM/runner/aircraft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/aircraft.py b/pySailingVLM/runner/aircraft.py
index 1de797e..9ec49ad 100644
--- a/pySailingVLM/runner/aircraft.py
+++ b/pySailingVLM/runner/aircraft.py
@@ -4,7 +4,7 @@ import numpy as np
 
 from pySailingVLM.rotations.geometry_calc import rotation_matrix
 from pySailingVLM.solver.panels import make_panels_from_le_te_points, get_panels_area
-from pySailingVLM.solver.coefs import get_CL_CD_free_wing, get_vlm_CL_CD_free_wing, get_vlm_Cxyz
+from pySailingVLM.solver.coefs import get_CL_CD_free_wing, get_vlm_Cxyz
 from pySailingVLM.solver.coefs import calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points, \
                                 solve_eq, calculate_RHS, calc_velocity_coefs
 
@@ -66,7 +66,8 @@ class Aircraft:
         self.__force, _, _ = calc_force_wrapper(self.__V_app_infw, self.__gamma_magnitude, self.rho, cp, rings, self.n_spanwise, normals, span_vectors, trailing_edge_info, leading_edge_info, 'force_xyz', self.gamma_orientation)
         self.__pressure = calc_pressure(self.__force, normals, areas)
 
-        self.__CL, self.__CD = get_vlm_CL_CD_free_wing(self.__force, self.V, self.rho, self.__S)
+        # the span lies along z, so the lift acts along y
+        self.__CD, self.__CL, _ = get_vlm_Cxyz(self.__force, self.V, self.rho, self.__S)
 
         total_p = np.sum(self.__pressure, axis=0)
         q = 0.5 * rho * (np.linalg.norm(self.V) ** 2) * self.__S
-- 
2.43.0


From 8a60d7540848b31eec07e75336de2e47332536bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 17/17] fix: rotate about lines that are parallel to the x axis

---
 pySailingVLM/rotations/geometry_calc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/rotations/geometry_calc.py b/pySailingVLM/rotations/geometry_calc.py
index f03d205..7e403e0 100644
--- a/pySailingVLM/rotations/geometry_calc.py
+++ b/pySailingVLM/rotations/geometry_calc.py
@@ -56,8 +56,9 @@ def rotate_points_around_arbitrary_axis(ps : np.ndarray, p1 : np.array, p2 : np.
     D = np.array([[1,0,0,-x1],[0,1,0,-y1],[0,0,1,-z1],[0,0,0,1]])
     D_inv = np.array([[1,0,0,x1],[0,1,0,y1],[0,0,1,z1],[0,0,0,1]])
 
-    R_x = np.array([[1,0,0,0],[0,c/v,-b/v,0],[0,b/v,c/v,0],[0,0,0,1]])
-    R_x_inv = np.array([[1,0,0,0],[0,c/v,b/v,0],[0,-b/v,c/v,0],[0,0,0,1]])
+    cx, sx = (c/v, b/v) if v > 0 else (1., 0.)  # an axis parallel to x needs no turn about x
+    R_x = np.array([[1,0,0,0],[0,cx,-sx,0],[0,sx,cx,0],[0,0,0,1]])
+    R_x_inv = np.array([[1,0,0,0],[0,cx,sx,0],[0,-sx,cx,0],[0,0,0,1]])
 
     R_y = np.array([[v/l,0,-a/l,0],[0,1,0,0],[a/l,0,v/l,0],[0,0,0,1]])
     R_y_inv = np.array([[v/l,0,a/l,0],[0,1,0,0],[-a/l,0,v/l,0],[0,0,0,1]])
-- 
2.43.0

