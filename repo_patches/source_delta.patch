From 627bfd0337eaf3e34af9374bef3f0935842905c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:39 +0000
Subject: [PATCH 01/22] fix: Peierls phase of the symmetric gauge

For A = B/2 (y, -x, 0) the phase is proportional to dx*sy - dy*sx; the
previous expression dx*sx - dy*sy is not gauge equivalent to gauges 0 and 1.
---
 tbplas/cython/sample.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/sample.pyx b/tbplas/cython/sample.pyx
index c48e522..90e3d0c 100644
--- a/tbplas/cython/sample.pyx
+++ b/tbplas/cython/sample.pyx
@@ -68,7 +68,7 @@ def set_mag_field(long [::1] hop_i, long [::1] hop_j,
             dx, dy = dr[ih, 0], dr[ih, 1]
             sx = orb_pos[jj, 0] + orb_pos[ii, 0]
             sy = orb_pos[jj, 1] + orb_pos[ii, 1]
-            phase = factor * 0.5 * intensity * (dx * sx - dy * sy)
+            phase = factor * 0.5 * intensity * (dx * sy - dy * sx)
             hop_v[ih] = hop_v[ih] * (cos(phase) + 1j * sin(phase))
 
 
-- 
2.43.0


From 82f7ec65147f5046414449d1eadf716851db0818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:39 +0000
Subject: [PATCH 02/22] fix: estimate rescale factor from absolute on-site
 energies

A negative on-site energy lowered the bound below the spectral radius.
---
 tbplas/cython/sample.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/sample.pyx b/tbplas/cython/sample.pyx
index 90e3d0c..dfa7fc2 100644
--- a/tbplas/cython/sample.pyx
+++ b/tbplas/cython/sample.pyx
@@ -104,7 +104,7 @@ def get_rescale(double [::1] orb_eng, long [::1] hop_i, long [::1] hop_j,
 
     ham_sum = np.zeros(num_orb_sc, dtype=np.float64)
     for io in range(num_orb_sc):
-        ham_sum[io] = orb_eng[io]
+        ham_sum[io] = abs(orb_eng[io])
     for ih in range(num_hop_sc):
         ii, jj = hop_i[ih], hop_j[ih]
         hop_abs = sqrt(hop_v[ih].real**2 + hop_v[ih].imag**2)
-- 
2.43.0


From aa85beb4a8471efd200b55daf26e8a84219000c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:39 +0000
Subject: [PATCH 03/22] fix: estimated rescale factor refers to the original
 Hamiltonian

Calling rescale_ham() on an already rescaled sample estimated the factor from
the rescaled arrays and scaled the Hamiltonian back.
---
 tbplas/builder/sample.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index b164df4..efcabd3 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -292,8 +292,10 @@ class Sample(Observable):
         self.init_orb_eng()
         self.init_hop()
         if factor is None:
-            factor = core.get_rescale(self.orb_eng, self.hop_i, self.hop_j,
-                                      self.hop_v)
+            # Arrays may have been rescaled already, while factor is defined
+            # w.r.t. the original values.
+            factor = self._rescale * core.get_rescale(self.orb_eng, self.hop_i,
+                                                      self.hop_j, self.hop_v)
         self.orb_eng *= (self._rescale / factor)
         self.hop_v *= (self._rescale / factor)
         self._rescale = factor
-- 
2.43.0


From 3653550e8dc9d2b3a68ce6e42cf1f7024457b334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:39 +0000
Subject: [PATCH 04/22] fix: reduce dyn_pol once after the loop over q-points

Reducing the accumulated array inside the loop multiplied the results of
earlier q-points by the number of processes for each later q-point.
---
 tbplas/diagonal/lindhard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 9fe8e13..4b4b3a1 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -409,7 +409,7 @@ class Lindhard(DiagSolver):
             else:
                 core.dyn_pol(delta_eng, prod_df, self._omegas, self._delta,
                              k_min, k_max, i_q, dyn_pol)
-            dyn_pol = self.all_reduce(dyn_pol)
+        dyn_pol = self.all_reduce(dyn_pol)
 
         # Multiply dyn_pol by prefactor
         dyn_pol *= self._get_dyn_pol_factor()
@@ -498,7 +498,7 @@ class Lindhard(DiagSolver):
             else:
                 core.dyn_pol(delta_eng, prod_df, self._omegas, self._delta,
                              k_min, k_max, i_q, dyn_pol)
-            dyn_pol = self.all_reduce(dyn_pol)
+        dyn_pol = self.all_reduce(dyn_pol)
 
         # Multiply dyn_pol by prefactor
         dyn_pol *= self._get_dyn_pol_factor()
-- 
2.43.0


From 5a84c6b9d908acbbe593fcec2a9b35e6d365c1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:39 +0000
Subject: [PATCH 05/22] fix: refuse to remove terms from a locked inter-hopping

Only add_hopping checked the lock.
---
 tbplas/builder/base.py | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/tbplas/builder/base.py b/tbplas/builder/base.py
index 9e5daee..a936722 100644
--- a/tbplas/builder/base.py
+++ b/tbplas/builder/base.py
@@ -488,6 +488,44 @@ class InterHopping(Observable, IntraHopping):
         self.check_lock()
         super().add_hopping(rn, orb_i, orb_j, energy)
 
+    def remove_hopping(self, rn: rn_type,
+                       orb_i: int,
+                       orb_j: int) -> bool:
+        """
+        Remove an existing hopping term.
+
+        :param rn: (r_a, r_b, r_c), cell index
+        :param orb_i: orbital index or bra
+        :param orb_j: orbital index of ket
+        :return: where the hopping term is removed, False if not found
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        return super().remove_hopping(rn, orb_i, orb_j)
+
+    def remove_orbitals(self, indices: Union[Iterable[int], np.ndarray]) -> None:
+        """
+        Remove the hopping terms corresponding to a list of orbitals and update
+        remaining hopping terms.
+
+        :param indices: indices of orbitals to remove
+        :return: None
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        super().remove_orbitals(indices)
+
+    def remove_rn(self, rn: rn_type) -> bool:
+        """
+        Remove all the hopping terms of given cell index.
+
+        :param rn: (r_a, r_b, r_c), cell index
+        :return: where the hopping terms are removed, False if not found
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        return super().remove_rn(rn)
+
 
 class HopDict:
     """
-- 
2.43.0


From 0f57597916db402f7db414796bf4155a26c64fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:39 +0000
Subject: [PATCH 06/22] fix: rejected vacancies leave the orbital set unchanged

add_vacancies kept the vacancies preceding the illegal one, and set_vacancies
lost the previous vacancies (also for its default argument None).
---
 tbplas/builder/super.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 24b0958..ef02a07 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -259,11 +259,13 @@ class OrbitalSet(Observable):
             out of range
         """
         self.check_lock()
+        checked_vacancies = []
         for vacancy in vacancies:
             if not isinstance(vacancy, tuple):
                 vacancy = tuple(vacancy)
             self._check_id_pc(vacancy)
-            self._vacancy_set.add(vacancy)
+            checked_vacancies.append(vacancy)
+        self._vacancy_set.update(checked_vacancies)
 
     def set_vacancies(self, vacancies: Union[Iterable[id_pc_type], np.ndarray] = None) -> None:
         """
@@ -278,8 +280,13 @@ class OrbitalSet(Observable):
             out of range
         """
         self.check_lock()
+        old_vacancies = self._vacancy_set
         self._vacancy_set = set()
-        self.add_vacancies(vacancies)
+        try:
+            self.add_vacancies(vacancies if vacancies is not None else ())
+        except Exception:
+            self._vacancy_set = old_vacancies
+            raise
 
     def sync_array(self, force_sync: bool = False) -> None:
         """
-- 
2.43.0


From a7e580a7377c6899b5b215c6ae79a5a80f0fd20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:39 +0000
Subject: [PATCH 07/22] fix: keep supercell arrays marked as outdated when
 sync_array fails

The new hash was stored before the vacancies were checked, so the call after
a failed one silently returned the arrays of the old primitive cell.
---
 tbplas/builder/super.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index ef02a07..84e29cf 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -318,8 +318,13 @@ class OrbitalSet(Observable):
             else:
                 # Check for invalid vacancies if primitive cell changes
                 if update_pc:
-                    for vac in self._vacancy_set:
-                        self._check_id_pc(vac)
+                    try:
+                        for vac in self._vacancy_set:
+                            self._check_id_pc(vac)
+                    except Exception:
+                        # Arrays are still outdated, so try again next time.
+                        self._hash_dict["pc"] = None
+                        raise
                 vac_id_pc = np.array(sorted(self._vacancy_set), dtype=np.int32)
                 vac_id_sc = core.build_vac_id_sc(self._dim, self.num_orb_pc,
                                                  vac_id_pc)
-- 
2.43.0


From 7504e0bde8ad113047ef1f5d89215d0d43c5b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:39 +0000
Subject: [PATCH 08/22] fix: check all orbital indices before removing any
 orbital

An illegal index was detected after some orbitals had been removed while their
hopping terms remained, and negative indices removed the wrong orbitals.
---
 tbplas/builder/primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 207d0a8..917009f 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -350,11 +350,11 @@ class PrimitiveCell(Observable):
 
         # Delete the orbitals
         indices = sorted(set(indices))
+        for orb_i in indices:
+            if not (0 <= orb_i < self.num_orb):
+                raise exc.PCOrbIndexError(orb_i)
         for i, orb_i in enumerate(indices):
-            try:
-                self._orbital_list.pop(orb_i - i)
-            except IndexError as err:
-                raise exc.PCOrbIndexError(orb_i) from err
+            self._orbital_list.pop(orb_i - i)
 
         # Delete associated hopping terms
         self._hopping_dict.remove_orbitals(indices)
-- 
2.43.0


From 2a71c7832f6728b63eba229bbd79b4dae0d83d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:39 +0000
Subject: [PATCH 09/22] fix: check all terms of a hopping dictionary before
 adding any

A term out of range left the preceding terms in the primitive cell.
---
 tbplas/builder/primitive.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 917009f..b75b5d1 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -394,12 +394,16 @@ class PrimitiveCell(Observable):
         """
         self.check_lock()
         hop_dict.to_spare()
+        hop_terms = []
         for rn, hop_mat in hop_dict.hoppings.items():
             for i in range(hop_mat.nnz):
                 orb_i = hop_mat.row.item(i)
                 orb_j = hop_mat.col.item(i)
                 hop_eng = hop_mat.data.item(i)
-                self.add_hopping(rn, orb_i, orb_j, hop_eng)
+                self._check_hop_index(rn, orb_i, orb_j)
+                hop_terms.append((rn, orb_i, orb_j, hop_eng))
+        for rn, orb_i, orb_j, hop_eng in hop_terms:
+            self.add_hopping(rn, orb_i, orb_j, hop_eng)
 
     def get_hopping(self, rn: rn_type,
                     orb_i: int,
-- 
2.43.0


From c5688ca9afc0430b980d9e17d977a889b82eecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:39 +0000
Subject: [PATCH 10/22] fix: rejected hopping matrix does not replace the
 stored one

The matrix was stored before its diagonal was checked.
---
 tbplas/builder/base.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/tbplas/builder/base.py b/tbplas/builder/base.py
index a936722..a9fd10c 100644
--- a/tbplas/builder/base.py
+++ b/tbplas/builder/base.py
@@ -577,14 +577,14 @@ class HopDict:
             raise ValueError(f"Shape of hopping matrix {hop_mat.shape} does not "
                              f"match {self._mat_shape}")
 
+        # Check for diagonal terms
+        if rn == (0, 0, 0):
+            self._check_diag_mat(hop_mat)
+
         # Set hopping matrix
         # We copy the hopping matrix to avoid changing it accidentally.
         self._hoppings[rn] = hop_mat.copy()
 
-        # Check for diagonal terms
-        if rn == (0, 0, 0):
-            self._check_diag()
-
     def __getitem__(self, rn: rn_type) -> np.ndarray:
         """
         Get the hopping matrix according to cell index.
@@ -627,10 +627,22 @@ class HopDict:
         """
         rn = (0, 0, 0)
         if rn in self._hoppings.keys():
-            hop_mat = self._hoppings[rn]
-            for i, energy in enumerate(np.abs(np.diag(hop_mat))):
-                if energy >= 1e-5:
-                    raise exc.PCHopDiagonalError(rn, i)
+            self._check_diag_mat(self._hoppings[rn])
+
+    @staticmethod
+    def _check_diag_mat(hop_mat: np.ndarray) -> None:
+        """
+        Check hopping matrix of (0, 0, 0) for diagonal hopping terms.
+
+        :param hop_mat: (num_orb, num_orb) complex128 array
+            hopping matrix of cell index (0, 0, 0)
+        :return: None
+        :raises PCHopDiagonalError: if on-site energies are included in hopping
+            matrix
+        """
+        for i, energy in enumerate(np.abs(np.diag(hop_mat))):
+            if energy >= 1e-5:
+                raise exc.PCHopDiagonalError((0, 0, 0), i)
 
     def to_spare(self) -> None:
         """
-- 
2.43.0


From 6632a1588e11fe9dad8ac8f9c6ca088c26f4e8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:39 +0000
Subject: [PATCH 11/22] fix: accept lists of fractional coordinates in
 frac2cart

np.ndarray() takes the shape of the array, not its elements.
---
 tbplas/base/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/base/lattice.py b/tbplas/base/lattice.py
index e91babb..c09ff17 100644
--- a/tbplas/base/lattice.py
+++ b/tbplas/base/lattice.py
@@ -116,7 +116,7 @@ def frac2cart(lattice_vectors: np.ndarray,
     if not isinstance(lattice_vectors, np.ndarray):
         lattice_vectors = np.array(lattice_vectors)
     if not isinstance(fractional_coordinates, np.ndarray):
-        fractional_coordinates = np.ndarray(fractional_coordinates)
+        fractional_coordinates = np.array(fractional_coordinates)
     cartesian_coordinates = np.zeros(fractional_coordinates.shape)
     conversion_matrix = lattice_vectors.T
     for i, row in enumerate(fractional_coordinates):
-- 
2.43.0


From def45bc93cb6be77b149dd0d4074437ab8c182c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:39 +0000
Subject: [PATCH 12/22] fix: accept lists of q-points in Lindhard.calc_epsilon

np.ndarray() takes the shape of the array, not its elements.
---
 tbplas/diagonal/lindhard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 4b4b3a1..76c5e95 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -539,7 +539,7 @@ class Lindhard(DiagSolver):
             relative dielectric function
         """
         if not isinstance(q_points, np.ndarray):
-            q_points = np.ndarray(q_points, dtype=np.float64)
+            q_points = np.array(q_points, dtype=np.float64)
         num_qpt = q_points.shape[0]
         num_omega = self._omegas.shape[0]
         epsilon = np.zeros((num_qpt, num_omega), dtype=np.complex128)
-- 
2.43.0


From 7bfb1bf41b8d028a4990eaf5e46af1b9f556027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:40 +0000
Subject: [PATCH 13/22] fix: detect any mismatch of 'extended' when merging
 primitive cells

The result depended on the order of the cells.
---
 tbplas/builder/advanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index c3a1c55..cef5bba 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -363,7 +363,7 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
     # Determine the 'extended' attribute
     extended = pc_list[0].extended
     for pc in pc_list:
-        if (pc.extended - extended) >= 1.e-3:
+        if abs(pc.extended - extended) >= 1.e-3:
             print(f"INFO: resetting extend to 1.0")
             extended = 1.0
             break
-- 
2.43.0


From 58cf26552b23045ce43e377da8ed064e2565d964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:47 +0000
Subject: [PATCH 14/22] fix: do not reset the lattices of the cells passed to
 merge_prim_cell

The arguments were modified, and locked primitive cells could not be merged.
---
 tbplas/builder/advanced.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index cef5bba..bce5f82 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -371,9 +371,9 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
 
     # Add orbitals
     for pc in pc_list:
-        pc.reset_lattice(lat_ref, origin_ref, unit=consts.NM, fix_orb=True)
-        for orb in pc.orbitals:
-            merged_cell.add_orbital(position=orb.position, energy=orb.energy,
+        orb_pos = cart2frac(lat_ref, pc.orb_pos_nm, origin_ref)
+        for pos, orb in zip(orb_pos, pc.orbitals):
+            merged_cell.add_orbital(position=tuple(pos), energy=orb.energy,
                                     label=orb.label)
 
     # Add intra-hopping terms
-- 
2.43.0


From 7b3fedaf2d3e6ba048fd34bdbca683493c3659b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:47 +0000
Subject: [PATCH 15/22] fix: reallocate working matrices when the number of
 orbitals changes

Adding or removing orbitals between two calculations with the same solver left
the matrices with the old shape.
---
 tbplas/diagonal/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tbplas/diagonal/base.py b/tbplas/diagonal/base.py
index 2d55dad..0407390 100644
--- a/tbplas/diagonal/base.py
+++ b/tbplas/diagonal/base.py
@@ -245,18 +245,17 @@ class DiagSolver(MPIEnv):
         :raises RuntimeError: if diagonalization failed
         """
         # Set up the Hamiltonian
-        if self.__h_mat is None:
-            self.__h_mat = np.zeros((self.num_orb, self.num_orb),
-                                    dtype=np.complex128)
+        mat_shape = (self.num_orb, self.num_orb)
+        if self.__h_mat is None or self.__h_mat.shape != mat_shape:
+            self.__h_mat = np.zeros(mat_shape, dtype=np.complex128)
         else:
             self.__h_mat *= 0.0
         self.__model.set_ham_dense(k_point, self.__h_mat, convention)
 
         # Set up the overlap matrix
         if self.__overlap is not None:
-            if self.__s_mat is None:
-                self.__s_mat = np.zeros((self.num_orb, self.num_orb),
-                                        dtype=np.complex128)
+            if self.__s_mat is None or self.__s_mat.shape != mat_shape:
+                self.__s_mat = np.zeros(mat_shape, dtype=np.complex128)
             else:
                 self.__s_mat *= 0.0
             self.__overlap.set_overlap_dense(k_point, self.__s_mat, convention)
-- 
2.43.0


From 5ac5d9db78ed1d540eed76bc01aeaf0b4c247907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:47 +0000
Subject: [PATCH 16/22] fix: Z2.calc_phases synchronizes the arrays of the
 primitive cell

Changes made to the cell after the Z2 object had been created were ignored.
---
 tbplas/diagonal/z2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tbplas/diagonal/z2.py b/tbplas/diagonal/z2.py
index 35397f5..e3e17ef 100644
--- a/tbplas/diagonal/z2.py
+++ b/tbplas/diagonal/z2.py
@@ -141,6 +141,8 @@ class Z2(DiagSolver):
             phases: (num_kpt, num_occ) float64 array
             phases of WF centers
         """
+        self._update_array()
+
         # Allocate working arrays
         if ka_array is None:
             ka_array = np.linspace(-0.5, 0.5, 200)
-- 
2.43.0


From 6b8b6536b20a80f5bec55d78f3de31ebe61b7e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:47 +0000
Subject: [PATCH 17/22] fix: SpinTexture recalculates the states when the
 primitive cell changes

The cached wave functions depended on the k-grid only.
---
 tbplas/diagonal/magnetic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tbplas/diagonal/magnetic.py b/tbplas/diagonal/magnetic.py
index 4ca6696..6fdf793 100644
--- a/tbplas/diagonal/magnetic.py
+++ b/tbplas/diagonal/magnetic.py
@@ -23,8 +23,10 @@ class SpinTexture(DiagSolver):
         whether the orbitals are stored in spin-major order
     _states: (num_kpt, num_orb) complex128 array
         cache of wave functions
+    _cell: 'PrimitiveCell' instance
+        primitive cell for which properties will be evaluated
     _hash_k: int
-        hash of k-grid
+        hash of k-grid and primitive cell
     """
     def __init__(self, cell: Any,
                  k_grid: np.ndarray,
@@ -37,6 +39,7 @@ class SpinTexture(DiagSolver):
         :param kwargs: arguments for DiagSolver.__init__
         """
         super().__init__(model=cell, **kwargs)
+        self._cell = cell
         self._k_grid = k_grid
         self._spin_major = spin_major
         self._states = None
@@ -48,7 +51,7 @@ class SpinTexture(DiagSolver):
 
         :return: None
         """
-        hash_new = hash(tuple([tuple(_) for _ in self._k_grid]))
+        hash_new = hash((tuple([tuple(_) for _ in self._k_grid]), self._cell))
         if self._hash_k != hash_new:
             self._hash_k = hash_new
             self._states = self.calc_states(self._k_grid, all_reduce=False)[1]
-- 
2.43.0


From 33bd005dbabca14915989a70261e939c0195d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:43 +0000
Subject: [PATCH 18/22] fix: divide Wannier90 hopping terms by the degeneracy
 of their R point

---
 tbplas/adapter/wannier90.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tbplas/adapter/wannier90.py b/tbplas/adapter/wannier90.py
index 1068cba..43f07d0 100644
--- a/tbplas/adapter/wannier90.py
+++ b/tbplas/adapter/wannier90.py
@@ -91,14 +91,18 @@ def read_hop(seed_name: str = "wannier90") -> Tuple[List[rn5_type], List[complex
     """
     with open(f"{seed_name}_hr.dat", "r") as hr_file:
         hr_content = hr_file.readlines()
+    num_wan = int(hr_content[1])
     nl_hopping = int(hr_content[2])
     nl_skip = 3 + int(np.ceil(nl_hopping / 15))
+    # Degeneracy of each R point, shared by its num_wan**2 hopping terms
+    degen = [int(x) for line in hr_content[3:nl_skip] for x in line.split()]
     hop_ind, hop_eng = [], []
-    for line in hr_content[nl_skip:]:
+    for i_l, line in enumerate(hr_content[nl_skip:]):
         data = line.split()
         ind = (int(data[0]), int(data[1]), int(data[2]),
                int(data[3])-1, int(data[4])-1)
         eng = float(data[5]) + 1j * float(data[6])
+        eng /= degen[i_l // num_wan**2]
         hop_ind.append(ind)
         hop_eng.append(eng)
     return hop_ind, hop_eng
-- 
2.43.0


From 68698db7967888e93c47cd16a4ebcc28609c67f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:00 +0000
Subject: [PATCH 19/22] fix: accumulate Wannier90 terms moved to the same R
 vector

---
 tbplas/adapter/wannier90.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/tbplas/adapter/wannier90.py b/tbplas/adapter/wannier90.py
index 43f07d0..e048d5f 100644
--- a/tbplas/adapter/wannier90.py
+++ b/tbplas/adapter/wannier90.py
@@ -150,23 +150,17 @@ def apply_wsvec(wsvec: dict,
     :param hop_eng: hopping energies in eV
     :return: None
     """
-    for ind_0 in wsvec.keys():
-        # Back up and reset original hopping term
-        ih_0 = hop_ind.index(ind_0)
-        eng_bak = hop_eng[ih_0]
-        hop_eng[ih_0] = 0.0
-
-        # Apply correction vector
-        num_vec = len(wsvec[ind_0])
-        for vec in wsvec[ind_0]:
+    # Distribute each term evenly over its equivalent R vectors. Terms moved
+    # to the same vector add up.
+    hop_dict = dict()
+    for ind_0, eng in zip(hop_ind, hop_eng):
+        vectors = wsvec.get(ind_0, [(0, 0, 0)])
+        for vec in vectors:
             ind_1 = (ind_0[0] + vec[0], ind_0[1] + vec[1], ind_0[2] + vec[2],
                      ind_0[3], ind_0[4])
-            if ind_1 in hop_ind:
-                ih_1 = hop_ind.index(ind_1)
-                hop_eng[ih_1] = eng_bak / num_vec
-            else:
-                hop_ind.append(ind_1)
-                hop_eng.append(eng_bak / num_vec)
+            hop_dict[ind_1] = hop_dict.get(ind_1, 0.0) + eng / len(vectors)
+    hop_ind[:] = hop_dict.keys()
+    hop_eng[:] = hop_dict.values()
 
 
 def wan2pc(seed_name: str = "wannier90",
-- 
2.43.0


From 1e8745300c1dc7b88694a81f94c2ec25bb6b0eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:05 +0000
Subject: [PATCH 20/22] fix: rotate_coord no longer truncates integer
 coordinates

---
 tbplas/base/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/base/lattice.py b/tbplas/base/lattice.py
index c09ff17..f106bec 100644
--- a/tbplas/base/lattice.py
+++ b/tbplas/base/lattice.py
@@ -172,7 +172,7 @@ def rotate_coord(coord: np.ndarray,
     rot_mat = cos_ang * np.eye(3) + sin_ang * u_prod + (1 - cos_ang) * u_tens
 
     # Rotate coordinates
-    coord_rot = np.zeros(shape=coord.shape, dtype=coord.dtype)
+    coord_rot = np.zeros(shape=coord.shape, dtype=np.float64)
     for i in range(coord.shape[0]):
         coord_rot[i] = np.matmul(rot_mat, coord[i] - center) + center
     return coord_rot
-- 
2.43.0


From 04b8879c82c113059550a6762fd228857274ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:31 +0000
Subject: [PATCH 21/22] fix: dist_bound gives an empty interval to processes
 without work

---
 tbplas/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/parallel.py b/tbplas/parallel.py
index c5dac5e..3501804 100644
--- a/tbplas/parallel.py
+++ b/tbplas/parallel.py
@@ -116,7 +116,7 @@ class MPIEnv:
         :return: lower and upper bounds of subrange assigned to this process
         """
         i_index = self.dist_range(n_max)
-        i_min, i_max = min(i_index), max(i_index)
+        i_min, i_max = i_index.start, i_index.stop - 1
         return i_min, i_max
 
     def reduce(self, data_local: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 3cfe979ca5e349aa68ef0b595bcd5afd86555bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:03 +0000
Subject: [PATCH 22/22] fix: s orbitals do not vanish at the nuclei in set_cube

---
 tbplas/cython/atom.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tbplas/cython/atom.pyx b/tbplas/cython/atom.pyx
index a0fee2f..09f5c3a 100644
--- a/tbplas/cython/atom.pyx
+++ b/tbplas/cython/atom.pyx
@@ -203,7 +203,8 @@ def set_cube(double [::1] c0, int[::1] qn, double[::1] cube_origin,
             for k in range(num_grid[2]):
                 dz = zmin + res * k - c0[2]
                 r = sqrt(dx2y2 + dz**2)
-                if r < 1.0e-7:
+                # Only s orbitals do not vanish at the nuclei
+                if r < 1.0e-7 and l > 0:
                     gridval = 0.0
                 else:
                     gridval = _radial(z, n, l, r) * _ylm(l, m, dx, dy, dz, r) * factor
-- 
2.43.0

