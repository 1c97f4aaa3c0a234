From a3c4fe1f129f3458cafe2d119731c2aaf0e0028a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:13 +0000
Subject: [PATCH 01/25] fix: size polynomial work arrays on every single-point
 evaluation

A batched evaluation of zero points left the node arrays empty, so the next
evaluate/evaluate_gradient wrote and read out of bounds.
---
 libsymmetrix/source/multivariate_polynomial.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libsymmetrix/source/multivariate_polynomial.cpp b/libsymmetrix/source/multivariate_polynomial.cpp
index 951f320..1468c35 100644
--- a/libsymmetrix/source/multivariate_polynomial.cpp
+++ b/libsymmetrix/source/multivariate_polynomial.cpp
@@ -149,6 +149,7 @@ auto MultivariatePolynomial::evaluate_batch(
 void MultivariatePolynomial::initialize_forward_pass(
     const std::vector<double>& x)
 {
+    node_values.resize(nodes.size());
     for (int i=0; i<num_variables; ++i)
         node_values[i] = x[i];
 }
@@ -163,6 +164,7 @@ void MultivariatePolynomial::forward_pass()
 
 void MultivariatePolynomial::initialize_backward_pass()
 {
+    node_adjoints.resize(nodes.size());
     cblas_dcopy(node_coefficients.size(),
                 node_coefficients.data(), 1,
                 node_adjoints.data(), 1);
-- 
2.43.0


From 9d3430d8e5e05c51b825816785dc5675ae35a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:54 +0000
Subject: [PATCH 02/25] fix: give every atom an energy and a force, also atoms
 without neighbours

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index 067af9a..a18e80a 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -75,7 +75,7 @@ class Symmetrix(Calculator):
         ase_atomic_numbers = self.atoms.get_atomic_numbers().tolist()
         mace_atomic_numbers = self.evaluator.atomic_numbers
         i_list, j_list, r, xyz = neighbor_list('ijdD', self.atoms, self.cutoff)
-        num_nodes = np.max(i_list) + 1
+        num_nodes = len(self.atoms)
         node_types = [mace_atomic_numbers.index(ase_atomic_numbers[i]) for i in range(num_nodes)]
         num_neigh = np.bincount(j_list, minlength=num_nodes)
         neigh_types = [mace_atomic_numbers.index(ase_atomic_numbers[j]) for j in j_list]
-- 
2.43.0


From 7dfd4a1e22ec08266b8543c255b2f7b7965f291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:54 +0000
Subject: [PATCH 03/25] fix: compute energies and forces of structures without
 a three-dimensional cell

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index a18e80a..f7558dd 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -99,4 +99,5 @@ class Symmetrix(Calculator):
         self.results['forces'] = atom_forces
 
         # stress from pair_forces
-        self.results['stress'] = full_3x3_to_voigt_6_stress((-pair_forces.T @ xyz)  / self.atoms.get_volume())
+        if self.atoms.cell.rank == 3:
+            self.results['stress'] = full_3x3_to_voigt_6_stress((-pair_forces.T @ xyz)  / self.atoms.get_volume())
-- 
2.43.0


From 5982d43b418513215e7d1d36395548aca3647e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:54 +0000
Subject: [PATCH 04/25] fix: drop earlier results before a calculation that may
 fail

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index f7558dd..c1453b5 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -70,6 +70,7 @@ class Symmetrix(Calculator):
         self.cutoff = self.evaluator.r_cut
 
     def calculate(self, atoms=None, properties=['energy'], system_changes=all_changes):
+        self.results = {}
         Calculator.calculate(self, atoms, properties, system_changes)
 
         ase_atomic_numbers = self.atoms.get_atomic_numbers().tolist()
-- 
2.43.0


From 2df8a2d484b061ef68c1f845fd49eb869e8ea52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:54 +0000
Subject: [PATCH 05/25] fix: report exactly one energy per atom with evaluators
 whose buffers only grow

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index c1453b5..5359e2f 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -84,7 +84,7 @@ class Symmetrix(Calculator):
             num_nodes, node_types, num_neigh, j_list, neigh_types, xyz.flatten(), r)
 
         self.results['energy'] = self.results['free_energy'] = np.sum(self.evaluator.node_energies)
-        self.results['energies'] = np.asarray(self.evaluator.node_energies)
+        self.results['energies'] = np.asarray(self.evaluator.node_energies)[:num_nodes]
 
         pair_forces = np.asarray(self.evaluator.node_forces).reshape((-1, 3))
         pair_forces = pair_forces[:len(i_list), :]  # currently, `evaluator.node_forces` is a container
-- 
2.43.0


From 195cb1c7826d5a8967b5d4e540a71e80abad2f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:04 +0000
Subject: [PATCH 06/25] fix: flush the converted model to its temporary file
 before loading it

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index 5359e2f..556db6c 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -65,6 +65,7 @@ class Symmetrix(Calculator):
             with NamedTemporaryFile("w") as fout:
                 logging.warning(f"Converting via NamedTemporaryFile {fout.name}")
                 fout.write(json.dumps(data))
+                fout.flush()
                 self.evaluator = MACE(fout.name)
 
         self.cutoff = self.evaluator.r_cut
-- 
2.43.0


From 31b8812a43bb826d61ba3c6323496827613ed2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:45 +0000
Subject: [PATCH 07/25] fix: copy non-contiguous arrays passed to the MACE
 bindings instead of misreading them

---
 symmetrix/source/cpp/mace.cpp | 112 ++++++++++++++++++----------------
 1 file changed, 58 insertions(+), 54 deletions(-)

diff --git a/symmetrix/source/cpp/mace.cpp b/symmetrix/source/cpp/mace.cpp
index 74765cd..0ba2c98 100644
--- a/symmetrix/source/cpp/mace.cpp
+++ b/symmetrix/source/cpp/mace.cpp
@@ -7,6 +7,10 @@
 
 namespace py = pybind11;
 
+// inputs are passed on as plain pointers, so other layouts have to be copied first
+template <typename T>
+using ArrayIn = py::array_t<T, py::array::c_style | py::array::forcecast>;
+
 void bind_mace(py::module_ &m)
 {
     py::class_<MACE>(m, "MACE")
@@ -34,12 +38,12 @@ void bind_mace(py::module_ &m)
         .def_readwrite("H2_adj", &MACE::H2_adj)
         .def("compute_node_energies_forces",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types,
-                           py::array_t<int> num_neigh,
-                           py::array_t<int> neigh_indices,
-                           py::array_t<int> neigh_types,
-                           py::array_t<double> xyz,
-                           py::array_t<double> r) {
+                           ArrayIn<int> node_types,
+                           ArrayIn<int> num_neigh,
+                           ArrayIn<int> neigh_indices,
+                           ArrayIn<int> neigh_types,
+                           ArrayIn<double> xyz,
+                           ArrayIn<double> r) {
                 self.compute_node_energies_forces(
                            num_nodes, 
                            std::span<const int>(node_types.data(), node_types.size()),
@@ -52,10 +56,10 @@ void bind_mace(py::module_ &m)
         .def("compute_R0",
             [] (MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    ArrayIn<int> node_types,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_types,
+                    ArrayIn<double> r) {
                 self.compute_R0(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -66,10 +70,10 @@ void bind_mace(py::module_ &m)
         .def("compute_R1",
             [] (MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    ArrayIn<int> node_types,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_types,
+                    ArrayIn<double> r) {
                 self.compute_R1(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -78,15 +82,15 @@ void bind_mace(py::module_ &m)
                     std::span<const double>(r.data(), r.size()));
             })
         .def("compute_Y",
-            [](MACE& self, py::array_t<double> xyz) {
+            [](MACE& self, ArrayIn<double> xyz) {
                 self.compute_Y(std::span<const double>(xyz.data(), xyz.size()));
             })
         .def("compute_A0",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types) {
+                    ArrayIn<int> node_types,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_types) {
                 self.compute_A0(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -95,11 +99,11 @@ void bind_mace(py::module_ &m)
             })
         .def("reverse_A0",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types,
-                           py::array_t<int> num_neigh,
-                           py::array_t<int> neigh_types,
-                           py::array_t<double> xyz,
-                           py::array_t<double> r) {
+                           ArrayIn<int> node_types,
+                           ArrayIn<int> num_neigh,
+                           ArrayIn<int> neigh_types,
+                           ArrayIn<double> xyz,
+                           ArrayIn<double> r) {
                 self.reverse_A0(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()),
                                 std::span<const int>(num_neigh.data(), num_neigh.size()),
@@ -110,10 +114,10 @@ void bind_mace(py::module_ &m)
         .def("compute_A0_scaled",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    ArrayIn<int> node_types,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_types,
+                    ArrayIn<double> r) {
                 self.compute_A0_scaled(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -124,11 +128,11 @@ void bind_mace(py::module_ &m)
         .def("reverse_A0_scaled",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    ArrayIn<int> node_types,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_types,
+                    ArrayIn<double> xyz,
+                    ArrayIn<double> r) {
                 self.reverse_A0_scaled(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -139,13 +143,13 @@ void bind_mace(py::module_ &m)
             })
         .def("compute_M0",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           ArrayIn<int> node_types) {
                 self.compute_M0(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
         .def("reverse_M0",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           ArrayIn<int> node_types) {
                 self.reverse_M0(num_nodes,
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
@@ -153,18 +157,18 @@ void bind_mace(py::module_ &m)
         .def("reverse_H1", &MACE::reverse_H1)
         .def("compute_Phi1",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> num_neigh,
-                           py::array_t<int> neigh_indices) {
+                           ArrayIn<int> num_neigh,
+                           ArrayIn<int> neigh_indices) {
                 self.compute_Phi1(num_nodes, 
                                   std::span<const int>(num_neigh.data(), num_neigh.size()),
                                   std::span<const int>(neigh_indices.data(), neigh_indices.size()));
             })
         .def("reverse_Phi1",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> num_neigh,
-                           py::array_t<int> neigh_indices,
-                           py::array_t<double> xyz,
-                           py::array_t<double> r,
+                           ArrayIn<int> num_neigh,
+                           ArrayIn<int> neigh_indices,
+                           ArrayIn<double> xyz,
+                           ArrayIn<double> r,
                            bool zero_dxyz,
                            bool zero_H1_adj) {
                 self.reverse_Phi1(num_nodes, 
@@ -180,10 +184,10 @@ void bind_mace(py::module_ &m)
         .def("compute_A1_scaled",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    ArrayIn<int> node_types,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_types,
+                    ArrayIn<double> r) {
                 self.compute_A1_scaled(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -194,11 +198,11 @@ void bind_mace(py::module_ &m)
         .def("reverse_A1_scaled",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    ArrayIn<int> node_types,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_types,
+                    ArrayIn<double> xyz,
+                    ArrayIn<double> r) {
                 self.reverse_A1_scaled(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -209,26 +213,26 @@ void bind_mace(py::module_ &m)
             })
         .def("compute_M1",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           ArrayIn<int> node_types) {
                 self.compute_M1(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
 
         .def("reverse_M1",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           ArrayIn<int> node_types) {
                 self.reverse_M1(num_nodes,
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
         .def("compute_H2",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           ArrayIn<int> node_types) {
                 self.compute_H2(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
         .def("reverse_H2",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types,
+                           ArrayIn<int> node_types,
                            bool zero_H1_adj) {
                 self.reverse_H2(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()),
@@ -236,7 +240,7 @@ void bind_mace(py::module_ &m)
             })
         .def("compute_readouts",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           ArrayIn<int> node_types) {
                 self.compute_readouts(num_nodes, 
                                       std::span<const int>(node_types.data(), node_types.size()));
             });
-- 
2.43.0


From cbc895095aa4e347223c9decbdf523342552ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:45 +0000
Subject: [PATCH 08/25] fix: refuse output arrays the CubicSplineSet bindings
 cannot write to

---
 symmetrix/source/cpp/cubic_spline_set.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/symmetrix/source/cpp/cubic_spline_set.cpp b/symmetrix/source/cpp/cubic_spline_set.cpp
index 226a35b..b7dd47c 100644
--- a/symmetrix/source/cpp/cubic_spline_set.cpp
+++ b/symmetrix/source/cpp/cubic_spline_set.cpp
@@ -7,19 +7,22 @@
 
 namespace py = pybind11;
 
+// outputs are written through plain pointers, so other types and layouts are refused
+using ArrayOut = py::array_t<double, py::array::c_style>;
+
 void bind_cubic_spline_set(py::module_ &m)
 {
     py::class_<CubicSplineSet>(m, "CubicSplineSet")
         .def(py::init<double,std::vector<std::vector<double>>,std::vector<std::vector<double>>>())
         .def("evaluate",
-            [](CubicSplineSet& self, double r, py::array_t<double> values_numpy) {
+            [](CubicSplineSet& self, double r, ArrayOut values_numpy) {
                 auto values = std::span<double>(values_numpy.mutable_data(), values_numpy.size());
                 self.evaluate(r, values);
-            })
+            }, py::arg("r"), py::arg("values").noconvert())
         .def("evaluate_derivs",
-            [](CubicSplineSet& self, double r, py::array_t<double> values_numpy, py::array_t<double> derivs_numpy) {
+            [](CubicSplineSet& self, double r, ArrayOut values_numpy, ArrayOut derivs_numpy) {
                auto values = std::span<double>(values_numpy.mutable_data(), values_numpy.size());
                auto derivs = std::span<double>(derivs_numpy.mutable_data(), derivs_numpy.size());
                self.evaluate_derivs(r, values, derivs);
-            });
+            }, py::arg("r"), py::arg("values").noconvert(), py::arg("derivs").noconvert());
 }
-- 
2.43.0


From 0c4dbe32ebc19680361c0bc3525a37f7031c09c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:32 +0000
Subject: [PATCH 09/25] fix: refuse pair_coeff with fewer elements than atom
 types

The type map was left shorter than the number of atom types, and every step
read past its end for atoms of the unmapped types.
---
 pair_symmetrix/pair_symmetrix_mace.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pair_symmetrix/pair_symmetrix_mace.cpp b/pair_symmetrix/pair_symmetrix_mace.cpp
index f16cf66..319213e 100644
--- a/pair_symmetrix/pair_symmetrix_mace.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace.cpp
@@ -116,6 +116,9 @@ void PairSymmetrixMACE::coeff(int narg, char **arg)
 {
   if (!allocated) allocate();
 
+  if (narg < 3 + atom->ntypes)
+    error->all(FLERR, "Incorrect args for pair coefficients: one element is needed for each atom type");
+
   utils::logmesg(lmp, "Loading MACE model from \'{}\' ... ", arg[2]);
   mace = std::make_unique<MACE>(arg[2]);
   utils::logmesg(lmp, "success\n");
-- 
2.43.0


From b8f4d1b510bb68770339db30915fd88e192ffe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:11 +0000
Subject: [PATCH 10/25] fix: refuse distances beyond the table in
 CubicSplineKokkos derivatives

---
 libsymmetrix/source/cubic_spline_kokkos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline_kokkos.cpp b/libsymmetrix/source/cubic_spline_kokkos.cpp
index 882788b..75ce7b9 100644
--- a/libsymmetrix/source/cubic_spline_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_kokkos.cpp
@@ -51,7 +51,7 @@ std::tuple<double, double> CubicSplineKokkos::evaluate_deriv(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i < 0 || i > num_coeffs / 4)
+    if (i < 0 || i >= num_coeffs / 4)
         throw std::invalid_argument("Out of bounds in CubicSplineKokkos::evaluate_deriv.");
 
     const double x = r - h * i;
@@ -76,7 +76,7 @@ std::tuple<double,double> CubicSplineKokkos::evaluate_deriv_divided(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i<0 or i> num_coeffs)
+    if (i < 0 || i >= num_coeffs / 4)
         throw std::invalid_argument("Out of bounds in CubicSplineKokkos::evaluate_deriv.");
 
     const double x = r - h*i;
-- 
2.43.0


From 25ece7f2144a826794f8b4b8cabd582c495a060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:53 +0000
Subject: [PATCH 11/25] fix: allocate all coefficients in the
 CubicSplineSetKokkos constructor from views

---
 libsymmetrix/source/cubic_spline_set_kokkos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsymmetrix/source/cubic_spline_set_kokkos.cpp b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
index 08c7484..79e3f64 100644
--- a/libsymmetrix/source/cubic_spline_set_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
@@ -60,7 +60,7 @@ CubicSplineSetKokkos::CubicSplineSetKokkos(
     this->h = h;
     num_splines = nodal_values.extent(0);
     num_nodes = nodal_values.extent(1);
-    Kokkos::realloc(c, num_nodes-1, num_splines);
+    Kokkos::realloc(c, num_nodes-1, 4, num_splines);
 
     // Create and use the functor for initialization
     InitializeCoefficientsFunctor functor(h, nodal_values, nodal_derivs, c);
-- 
2.43.0


From 4913bf65492da7b78c6df8519789b3597ec4ec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:28 +0000
Subject: [PATCH 12/25] fix: accumulate the MultivariatePolynomialKokkos simple
 gradient atomically

---
 libsymmetrix/source/multivariate_polynomial_kokkos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
index f587a28..7973528 100644
--- a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
+++ b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
@@ -121,7 +121,7 @@ double MultivariatePolynomialKokkos::evaluate_gradient_simple(
                     if (j == k) continue;
                     monomial_deriv *= x(monomials(i,k));
                 }
-                g(monomials(i,j)) += coefficients(i) * monomial_deriv;
+                Kokkos::atomic_add(&g(monomials(i,j)), coefficients(i) * monomial_deriv);
             }
         });
     return f;
-- 
2.43.0


From be9fd9e7ce89013b82014035642a6c8c7cdcb7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:28 +0000
Subject: [PATCH 13/25] fix: copy the coefficients to the host before
 CubicSplineKokkos reads them there

---
 libsymmetrix/source/cubic_spline_kokkos.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline_kokkos.cpp b/libsymmetrix/source/cubic_spline_kokkos.cpp
index 75ce7b9..74366f5 100644
--- a/libsymmetrix/source/cubic_spline_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_kokkos.cpp
@@ -35,7 +35,7 @@ double CubicSplineKokkos::evaluate(double r)
     const double xxx = xx * x;
     const int i4 = 4 * i;
 
-    auto h_c = Kokkos::create_mirror_view(c);
+    auto h_c = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), c);
     
     double ret = 0;
     const double c0 = h_c(i4);
@@ -59,7 +59,7 @@ std::tuple<double, double> CubicSplineKokkos::evaluate_deriv(double r)
     const double xxx = xx * x;
     const int i4 = 4 * i;
 
-    auto h_c = Kokkos::create_mirror_view(c);
+    auto h_c = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), c);
 
     const double c0 = h_c(i4);
     const double c1 = h_c(i4 + 1);
@@ -84,7 +84,7 @@ std::tuple<double,double> CubicSplineKokkos::evaluate_deriv_divided(double r)
     const double xxx = xx*x;
     const int i4 = 4*i;
 
-    auto h_c = Kokkos::create_mirror_view(c);
+    auto h_c = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), c);
 
     const double c0 = h_c(i4);
     const double c1 = h_c(i4+1);
-- 
2.43.0


From 9a0c7be612ca3e216fb7b7ea7d9dde774fd8ffa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:28 +0000
Subject: [PATCH 14/25] fix: run the MultivariatePolynomialKokkos passes where
 their views live

---
 .../source/multivariate_polynomial_kokkos.cpp | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
index 7973528..8bafda8 100644
--- a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
+++ b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
@@ -141,11 +141,16 @@ void MultivariatePolynomialKokkos::initialize_forward_pass(
 void MultivariatePolynomialKokkos::forward_pass()
 {
     // TODO: parallelize
-    for (int i=0; i<edges.extent(0); ++i) {
-        const int i0 = edges(i,0);
-        const int i1 = edges(i,1);
-        node_values(num_variables+i) = node_values(i0)*node_values(i1);
-    }
+    Kokkos::parallel_for(
+        "MultivariatePolynomialKokkos::forward_pass",
+        1,
+        KOKKOS_CLASS_LAMBDA (const int) {
+            for (int i=0; i<edges.extent(0); ++i) {
+                const int i0 = edges(i,0);
+                const int i1 = edges(i,1);
+                node_values(num_variables+i) = node_values(i0)*node_values(i1);
+            }
+        });
 }
 
 void MultivariatePolynomialKokkos::initialize_backward_pass()
@@ -160,12 +165,18 @@ void MultivariatePolynomialKokkos::initialize_backward_pass()
 
 void MultivariatePolynomialKokkos::backward_pass()
 {
-    for (int i=edges.extent(0)-1; i>=0; --i) {
-        const int i0 = edges(i,0);
-        const int i1 = edges(i,1);
-        node_adjoints(i0) += node_adjoints(num_variables+i)*node_values(i1);
-        node_adjoints(i1) += node_adjoints(num_variables+i)*node_values(i0);
-    }
+    // TODO: parallelize
+    Kokkos::parallel_for(
+        "MultivariatePolynomialKokkos::backward_pass",
+        1,
+        KOKKOS_CLASS_LAMBDA (const int) {
+            for (int i=static_cast<int>(edges.extent(0))-1; i>=0; --i) {
+                const int i0 = edges(i,0);
+                const int i1 = edges(i,1);
+                node_adjoints(i0) += node_adjoints(num_variables+i)*node_values(i1);
+                node_adjoints(i1) += node_adjoints(num_variables+i)*node_values(i0);
+            }
+        });
 }
 
 void MultivariatePolynomialKokkos::extract_gradient_from_graph(
-- 
2.43.0


From 8e7ed5f68055a1d55b68d2d75bc80497f484a67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:18 +0000
Subject: [PATCH 15/25] fix: run MultilayerPerceptronKokkos::evaluate where its
 views live

---
 .../source/multilayer_perceptron_kokkos.cpp   | 31 +++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/libsymmetrix/source/multilayer_perceptron_kokkos.cpp b/libsymmetrix/source/multilayer_perceptron_kokkos.cpp
index c9c1677..33d92a7 100644
--- a/libsymmetrix/source/multilayer_perceptron_kokkos.cpp
+++ b/libsymmetrix/source/multilayer_perceptron_kokkos.cpp
@@ -62,23 +62,22 @@ void MultilayerPerceptronKokkos::evaluate(
 
     Kokkos::deep_copy(node_values(0), x);
 
-    for (int i=0; i<batch_size; ++i) {
-        for (int l=0; l<shape.size()-1; ++l) {
-            auto in = Kokkos::subview(node_values(l), i, Kokkos::ALL);
-            auto out = Kokkos::subview(node_values(l+1), i, Kokkos::ALL);
-            KokkosBlas::SerialGemv<KokkosBatched::Trans::NoTranspose,
-                                   KokkosBatched::Algo::Gemv::Unblocked>
-                ::invoke(1.0, weights(l), in, 0.0, out);
-            if (l==shape.size()-2)
-                break;  // no activation in final layer
-            Kokkos::parallel_for(
-                "MultilayerPerceptronKokkos::evaluate::activation",
-                shape(l+1),
-                KOKKOS_CLASS_LAMBDA (const int j) {
+    Kokkos::parallel_for(
+        "MultilayerPerceptronKokkos::evaluate",
+        batch_size,
+        KOKKOS_CLASS_LAMBDA (const int i) {
+            for (int l=0; l<shape.size()-1; ++l) {
+                auto in = Kokkos::subview(node_values(l), i, Kokkos::ALL);
+                auto out = Kokkos::subview(node_values(l+1), i, Kokkos::ALL);
+                KokkosBlas::SerialGemv<KokkosBatched::Trans::NoTranspose,
+                                       KokkosBatched::Algo::Gemv::Unblocked>
+                    ::invoke(1.0, weights(l), in, 0.0, out);
+                if (l==shape.size()-2)
+                    break;  // no activation in final layer
+                for (int j=0; j<shape(l+1); ++j)
                     out(j) = activation_scale*out(j)/(1.0+Kokkos::exp(-out(j)));
-                });
-        }
-    }
+            }
+        });
 
     Kokkos::fence();
     Kokkos::deep_copy(f, Kokkos::subview(node_values(shape.size()-1), Kokkos::ALL, 0));
-- 
2.43.0


From ddd8ad62e422161b6151b641c912870adfcd45e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:15 +0000
Subject: [PATCH 16/25] fix: keep the padding of MultivariatePolynomialKokkos
 monomials on devices

---
 libsymmetrix/source/multivariate_polynomial_kokkos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
index 8bafda8..d59deeb 100644
--- a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
+++ b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
@@ -19,8 +19,8 @@ MultivariatePolynomialKokkos::MultivariatePolynomialKokkos(
         if (m.size() > max_monomial_size)
             max_monomial_size = m.size();
     Kokkos::realloc(this->monomials, monomials.size(), max_monomial_size);
-    Kokkos::deep_copy(this->monomials, -1);
     auto h_monomials = Kokkos::create_mirror_view(this->monomials);
+    Kokkos::deep_copy(h_monomials, -1);
     for (int i=0; i<monomials.size(); ++i) {
         for (int j=0; j<monomials[i].size(); ++j) {
             h_monomials(i,j) = monomials[i][j];
@@ -32,8 +32,8 @@ MultivariatePolynomialKokkos::MultivariatePolynomialKokkos(
     MultivariatePolynomial mp(num_variables, coefficients, monomials);
     num_auxiliary_nodes = mp.num_auxiliary_nodes;
     nodes = Kokkos::View<int**,Kokkos::LayoutRight>("nodes", mp.nodes.size(), max_monomial_size);
-    Kokkos::deep_copy(nodes, -1);
     auto h_nodes = Kokkos::create_mirror_view(nodes);
+    Kokkos::deep_copy(h_nodes, -1);
     for (int i=0; i<mp.nodes.size(); ++i)
         for (int j=0; j<mp.nodes[i].size(); ++j)
             h_nodes(i,j) = mp.nodes[i][j];
-- 
2.43.0


From 9c0631babfe07926ec9d825f29e720240325d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:48 +0000
Subject: [PATCH 17/25] fix: size the Kokkos pair style's type map by the
 pair_coeff arguments

It was sized by the number of elements of the model, so that mapping more
atom types than that wrote and read past its end.
---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index ae555e1..67922ca 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -138,7 +138,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
   utils::logmesg(lmp, "success\n");
 
   // extract atomic numbers from pair_coeff
-  mace_types = Kokkos::View<int*>("mace_types", mace->atomic_numbers.size());
+  mace_types = Kokkos::View<int*>("mace_types", narg-3);
   auto h_mace_types = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), mace_types);
   auto h_mace_atomic_numbers = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), mace->atomic_numbers);
   for (int i=3; i<narg; ++i) {
-- 
2.43.0


From 89aac3eb5697dd2b8adb9f9b680262f09209bc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:48 +0000
Subject: [PATCH 18/25] fix: refuse pair_coeff elements the Kokkos pair style
 cannot map

An element missing from the model was mapped to index -1, and atom types
without an element were accepted; both are refused by symmetrix/mace.
---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index 67922ca..9a745b9 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -133,6 +133,9 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
 {
   if (!allocated) allocate();
 
+  if (narg < 3 + atom->ntypes)
+    error->all(FLERR, "Incorrect args for pair coefficients: one element is needed for each atom type");
+
   utils::logmesg(lmp, "Loading MACEKokkos model from \'{}\' ... ", arg[2]);
   mace = std::make_unique<MACEKokkos<Precision>>(arg[2]);
   utils::logmesg(lmp, "success\n");
@@ -152,6 +155,8 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
     for (int j=0; j<mace->atomic_numbers.size(); ++j)
         if (h_mace_atomic_numbers(j) == atomic_number)
             mace_index = j;
+    if (mace_index == -1)
+      error->all(FLERR, "Problem matching LAMMPS types to MACE types.");
     utils::logmesg(lmp, "  mapping LAMMPS type {} ({}) to MACEKokkos type {}\n",
                    i-2, arg[i], mace_index);
     h_mace_types(i-3) = mace_index;
-- 
2.43.0


From 4570896a91b97821c465820d85678ad066cba0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:48 +0000
Subject: [PATCH 19/25] fix: report the atomic energies of the current step in
 the Kokkos pair style

They were added to those of all earlier steps, because the array was only
cleared when it grew, and never reached the host.
---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index 9a745b9..5fc7d53 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -380,7 +380,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_domain_decomposi
 {
   ev_init(eflag, vflag, 0);
 
-  if (eflag_atom && k_eatom.view<DeviceType>().extent(0)<maxeatom) {
+  if (eflag_atom) {
      memoryKK->destroy_kokkos(k_eatom,eatom);
      memoryKK->create_kokkos(k_eatom,eatom,maxeatom,"pair:eatom");
   }
@@ -512,6 +512,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_domain_decomposi
         d_eatom(ii) += node_energies(ii);
     });
     k_eatom.modify<DeviceType>();
+    k_eatom.sync_host();
   }
 
   auto mace_node_forces = mace->node_forces;
@@ -596,7 +597,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_mpi_message_passing
 {
   ev_init(eflag, vflag, 0);
 
-  if (eflag_atom && k_eatom.view<DeviceType>().extent(0)<maxeatom) {
+  if (eflag_atom) {
      memoryKK->destroy_kokkos(k_eatom,eatom);
      memoryKK->create_kokkos(k_eatom,eatom,maxeatom,"pair:eatom");
   }
@@ -778,6 +779,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_mpi_message_passing
         d_eatom(ii) += node_energies(ii);
     });
     k_eatom.modify<DeviceType>();
+    k_eatom.sync_host();
   }
 
   auto mace_node_forces = mace->node_forces;
@@ -863,7 +865,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_mpi_message_pass
 {
   ev_init(eflag, vflag, 0);
 
-  if (eflag_atom && k_eatom.view<DeviceType>().extent(0)<maxeatom) {
+  if (eflag_atom) {
      memoryKK->destroy_kokkos(k_eatom,eatom);
      memoryKK->create_kokkos(k_eatom,eatom,maxeatom,"pair:eatom");
   }
@@ -1106,6 +1108,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_mpi_message_pass
         d_eatom(ii) += node_energies(ii);
     });
     k_eatom.modify<DeviceType>();
+    k_eatom.sync_host();
   }
 
   auto mace_node_forces = mace->node_forces;
-- 
2.43.0


From 90bda019a8d4cf1392fe412208043e057a620701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:48 +0000
Subject: [PATCH 20/25] fix: keep the other atoms' data in the host-side
 unpacking of the Kokkos pair style

On devices the mirror views were not filled before the received values were
put in, so that copying them back cleared everything else.
---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index 5fc7d53..be0ac9f 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -266,7 +266,7 @@ int PairSymmetrixMACEKokkos<DeviceType, Precision>::pack_forward_comm_kokkos(
 template<class DeviceType, typename Precision>
 void PairSymmetrixMACEKokkos<DeviceType, Precision>::unpack_forward_comm(int n, int first, double *buf)
 {
-  auto h_H1 = Kokkos::create_mirror_view(H1);
+  auto h_H1 = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), H1);
   for (int i=0; i<n; ++i) {
     for (int LM=0; LM<mace->num_LM; ++LM) {
       for (int k=0; k<mace->num_channels; ++k) {
@@ -301,8 +301,6 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::unpack_forward_comm_kokkos(
 template<class DeviceType, typename Precision>
 int PairSymmetrixMACEKokkos<DeviceType, Precision>::pack_reverse_comm(int n, int first, double *buf)
 {
-  // TODO: for some reason this does not work as expected, causing problems
-  //       for GPU simulations called with -pk kokkos comm/pair/reverse no
   auto h_H1_adj = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), H1_adj);
   for (int i=0; i<n; ++i) {
     for (int LM=0; LM<mace->num_LM; ++LM) {
@@ -338,7 +336,7 @@ int PairSymmetrixMACEKokkos<DeviceType, Precision>::pack_reverse_comm_kokkos(
 template<class DeviceType, typename Precision>
 void PairSymmetrixMACEKokkos<DeviceType, Precision>::unpack_reverse_comm(int n, int *list, double *buf)
 {
-  auto h_H1_adj = Kokkos::create_mirror_view(H1_adj);
+  auto h_H1_adj = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), H1_adj);
   for (int ii=0; ii<n; ++ii) {
     const int i = list[ii];
     for (int LM=0; LM<mace->num_LM; ++LM) {
-- 
2.43.0


From b8e6f744f858dccc1eecfae8ecdc2dc4e6f0e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:27 +0000
Subject: [PATCH 21/25] fix: resize the Kokkos pair style's H1 when pair_coeff
 loads another model

Only the number of atoms was compared, so that a model with other channels or
angular momenta read and wrote past the rows of the previous one.
---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index be0ac9f..35863cd 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -717,7 +717,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_mpi_message_passing
   mace->compute_H1(num_nodes);
 
   // sort H1 contributions by i (rather than ii)
-  if (H1.extent(0) < k_list->inum+atom->nghost)
+  if (H1.extent(0) < k_list->inum+atom->nghost or H1.extent(1) != mace->num_LM or H1.extent(2) != mace->num_channels)
     Kokkos::realloc(H1, (k_list->inum+atom->nghost), mace->num_LM, mace->num_channels);
   auto num_LM = mace->num_LM;
   auto num_channels = mace->num_channels;
-- 
2.43.0


From e135bc290ef445e68d51185ca0160abcccebb44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:44 +0000
Subject: [PATCH 22/25] fix: copy non-contiguous arrays passed to the Kokkos
 bindings instead of misreading them

---
 symmetrix/source/cpp/mace_kokkos.cpp          | 144 +++++++++---------
 .../cpp/multilayer_perceptron_kokkos.cpp      |   4 +-
 .../cpp/multivariate_polynomial_kokkos.cpp    |  12 +-
 symmetrix/source/cpp/utilities_kokkos.hpp     |  12 +-
 4 files changed, 88 insertions(+), 84 deletions(-)

diff --git a/symmetrix/source/cpp/mace_kokkos.cpp b/symmetrix/source/cpp/mace_kokkos.cpp
index b7d28d1..c7cd641 100644
--- a/symmetrix/source/cpp/mace_kokkos.cpp
+++ b/symmetrix/source/cpp/mace_kokkos.cpp
@@ -23,7 +23,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.node_energies);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<double> node_energies) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<double> node_energies) {
                 set_kokkos_view(self.node_energies, node_energies);
             })
         // partial forces
@@ -31,19 +31,19 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.node_forces);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<double> node_forces) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<double> node_forces) {
                 set_kokkos_view(self.node_forces, node_forces);
             })
         // node energies and forces
         .def("compute_node_energies_forces",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_indices,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    ArrayIn<int> node_types,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_indices,
+                    ArrayIn<int> neigh_types,
+                    ArrayIn<double> xyz,
+                    ArrayIn<double> r) {
                 self.compute_node_energies_forces(
                     num_nodes, 
                     create_kokkos_view("node_types", node_types),
@@ -58,17 +58,17 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.R0);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> R0) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<Precision> R0) {
                 const int total_num_neigh = R0.size()/((self.l_max+1)*self.num_channels);
                 set_kokkos_view(self.R0, R0, total_num_neigh, (self.l_max+1)*self.num_channels);
             })
         .def("compute_R0", 
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    ArrayIn<int> node_types,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_types,
+                    ArrayIn<double> r) {
                 self.compute_R0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -81,7 +81,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.R1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> R1) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<Precision> R1) {
                 const int num_le = self.Phi1_l.size();
                 const int total_num_neigh = R1.size()/(num_le*self.num_channels);
                 set_kokkos_view(self.R1, R1, total_num_neigh, num_le*self.num_channels);
@@ -89,10 +89,10 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("compute_R1", 
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    ArrayIn<int> node_types,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_types,
+                    ArrayIn<double> r) {
                 self.compute_R1(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -103,7 +103,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         // Y
         .def("compute_Y",
             [] (MACEKokkos<Precision>& self,
-                    py::array_t<double> xyz) {
+                    ArrayIn<double> xyz) {
                 self.compute_Y(
                     create_kokkos_view("xyz", xyz));
             })
@@ -112,7 +112,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.A0);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> A0) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<Precision> A0) {
                 const int num_nodes = A0.size()/(self.num_lm*self.num_channels);
                 set_kokkos_view(self.A0, A0, num_nodes, self.num_lm, self.num_channels);
             })
@@ -120,16 +120,16 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.A0_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> A0_adj) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<Precision> A0_adj) {
                 const int num_nodes = A0_adj.size()/(self.num_lm*self.num_channels);
                 set_kokkos_view(self.A0_adj, A0_adj, num_nodes, self.num_lm, self.num_channels);
             })
         .def("compute_A0",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types) {
+                    ArrayIn<int> node_types,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_types) {
                 self.compute_A0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -139,11 +139,11 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_A0",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    ArrayIn<int> node_types,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_types,
+                    ArrayIn<double> xyz,
+                    ArrayIn<double> r) {
                 self.reverse_A0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -155,10 +155,10 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("compute_A0_scaled",
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    ArrayIn<int> node_types,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_types,
+                    ArrayIn<double> r) {
                 self.compute_A0_scaled(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -169,11 +169,11 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_A0_scaled",
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    ArrayIn<int> node_types,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_types,
+                    ArrayIn<double> xyz,
+                    ArrayIn<double> r) {
                 self.reverse_A0_scaled(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -187,7 +187,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.M0);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> M0) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<Precision> M0) {
                 const int num_nodes = M0.size()/(self.num_LM*self.num_channels);
                 set_kokkos_view(self.M0, M0, num_nodes, self.num_LM, self.num_channels);
             })
@@ -195,14 +195,14 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.M0_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> M0_adj) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<Precision> M0_adj) {
                 const int num_nodes = M0_adj.size()/(self.num_LM*self.num_channels);
                 set_kokkos_view(self.M0_adj, M0_adj, num_nodes, self.num_LM, self.num_channels);
             })
         .def("compute_M0",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types) {
+                    ArrayIn<int> node_types) {
                 self.compute_M0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -210,7 +210,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_M0",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types) {
+                    ArrayIn<int> node_types) {
                 self.reverse_M0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -220,7 +220,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.H1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> H1) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<Precision> H1) {
                 const int num_nodes = H1.size()/(self.num_LM*self.num_channels);
                 set_kokkos_view(self.H1, H1, num_nodes, self.num_LM, self.num_channels);
             })
@@ -228,7 +228,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.H1_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> H1_adj) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<Precision> H1_adj) {
                 const int num_nodes = H1_adj.size()/(self.num_LM*self.num_channels);
                 set_kokkos_view(self.H1_adj, H1_adj, num_nodes, self.num_LM, self.num_channels);
             })
@@ -239,7 +239,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.Phi1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> Phi1) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<Precision> Phi1) {
                 const int num_nodes = Phi1.size()/(self.num_lme*self.num_channels);
                 set_kokkos_view(self.Phi1, Phi1, num_nodes, self.num_lme, self.num_channels);
             })
@@ -247,15 +247,15 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.dPhi1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> dPhi1) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<Precision> dPhi1) {
                 const int num_nodes = dPhi1.size()/(self.num_lme*self.num_channels);
                 set_kokkos_view(self.dPhi1, dPhi1, num_nodes, self.num_lme, self.num_channels);
             })
         .def("compute_Phi1",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types) {
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_types) {
                 self.compute_Phi1(
                     num_nodes,
                     create_kokkos_view("num_neigh", num_neigh),
@@ -264,10 +264,10 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_Phi1",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_indices,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_indices,
+                    ArrayIn<double> xyz,
+                    ArrayIn<double> r,
                     bool zero_dxyz,
                     bool zero_H1_adj) {
                 self.reverse_Phi1(
@@ -284,7 +284,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.A1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> A1) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<Precision> A1) {
                 const int num_nodes = A1.size()/(self.num_lm*self.num_channels);
                 set_kokkos_view(self.A1, A1, num_nodes, self.num_lm, self.num_channels);
             })
@@ -292,7 +292,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.A1_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> A1_adj) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<Precision> A1_adj) {
                 const int num_nodes = A1_adj.size()/(self.num_lm*self.num_channels);
                 set_kokkos_view(self.A1_adj, A1_adj, num_nodes, self.num_lm, self.num_channels);
             })
@@ -307,10 +307,10 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("compute_A1_scaled",
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    ArrayIn<int> node_types,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_types,
+                    ArrayIn<double> r) {
                 self.compute_A1_scaled(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -321,11 +321,11 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_A1_scaled",
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    ArrayIn<int> node_types,
+                    ArrayIn<int> num_neigh,
+                    ArrayIn<int> neigh_types,
+                    ArrayIn<double> xyz,
+                    ArrayIn<double> r) {
                 self.reverse_A1_scaled(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -339,7 +339,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.M1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> M1) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<Precision> M1) {
                 const int num_nodes = M1.size()/(self.num_channels);
                 set_kokkos_view(self.M1, M1, num_nodes, self.num_channels);
             })
@@ -347,14 +347,14 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.M1_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> M1_adj) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<Precision> M1_adj) {
                 const int num_nodes = M1_adj.size()/(self.num_channels);
                 set_kokkos_view(self.M1_adj, M1_adj, num_nodes, self.num_channels);
             })
         .def("compute_M1",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types) {
+                    ArrayIn<int> node_types) {
                 self.compute_M1(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -362,7 +362,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_M1",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types) {
+                    ArrayIn<int> node_types) {
                 self.reverse_M1(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -372,7 +372,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.H2);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<double> H2) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<double> H2) {
                 const int num_nodes = H2.size()/self.num_channels;
                 set_kokkos_view(self.H2, H2, num_nodes, self.num_channels);
             })
@@ -380,14 +380,14 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.H2_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<double> H2_adj) {
+            [] (MACEKokkos<Precision>& self, ArrayIn<double> H2_adj) {
                 const int num_nodes = H2_adj.size()/self.num_channels;
                 set_kokkos_view(self.H2_adj, H2_adj, num_nodes, self.num_channels);
             })
         .def("compute_H2",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types) {
+                    ArrayIn<int> node_types) {
                 self.compute_H2(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -395,7 +395,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_H2",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
+                    ArrayIn<int> node_types,
                     bool zero_H1_adj) {
                 self.reverse_H2(
                     num_nodes,
@@ -406,7 +406,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("compute_readouts",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types) {
+                    ArrayIn<int> node_types) {
                 return self.compute_readouts(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
diff --git a/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp b/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp
index ab299ad..7c24c82 100644
--- a/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp
+++ b/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp
@@ -15,7 +15,7 @@ void bind_multilayer_perceptron_kokkos(py::module_ &m)
         .def(py::init<std::vector<int>,std::vector<std::vector<double>>,double>())
         .def("evaluate",
             [](MultilayerPerceptronKokkos& self,
-                    py::array_t<double> x,
+                    ArrayIn<double> x,
                     py::array_t<double> f) {
                 auto h_x = Kokkos::View<const double**,
                                         Kokkos::LayoutRight,
@@ -32,7 +32,7 @@ void bind_multilayer_perceptron_kokkos(py::module_ &m)
             })
         .def("evaluate_gradient",
             [](MultilayerPerceptronKokkos& self,
-                    py::array_t<double> x,
+                    ArrayIn<double> x,
                     py::array_t<double> f,
                     py::array_t<double> g) {
                 auto h_x = Kokkos::View<const double**,
diff --git a/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp b/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp
index dc8ff8d..1333f34 100644
--- a/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp
+++ b/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp
@@ -15,20 +15,20 @@ void bind_multivariate_polynomial_kokkos(py::module_ &m)
         .def(py::init<int,std::vector<double>,std::vector<std::vector<int>>>())
         .def("evaluate",
             [] (MultivariatePolynomialKokkos& self,
-                py::array_t<const double> x) {
+                ArrayIn<const double> x) {
                     return self.evaluate(create_kokkos_view("x", x));
                 })
         .def("evaluate_simple",
             [] (MultivariatePolynomialKokkos& self,
-                py::array_t<const double> x) {
+                ArrayIn<const double> x) {
                     return self.evaluate_simple(create_kokkos_view("x", x));
                 })
         .def("evaluate_gradient",
             [] (MultivariatePolynomialKokkos& self,
-                py::array_t<const double> x,
+                ArrayIn<const double> x,
                 py::array_t<double> g) {
                     Kokkos::View<double*> g_view("g", g.size());
-                    set_kokkos_view(g_view, g);
+                    set_kokkos_view(g_view, ArrayIn<double>(g));
                     auto f = self.evaluate_gradient(create_kokkos_view("x", x), g_view);
                     auto g_vector = view2vector(g_view);
                     for (int i=0; i<g.size(); ++i)
@@ -37,10 +37,10 @@ void bind_multivariate_polynomial_kokkos(py::module_ &m)
                 })
         .def("evaluate_gradient_simple",
             [] (MultivariatePolynomialKokkos& self,
-                py::array_t<const double> x,
+                ArrayIn<const double> x,
                 py::array_t<double> g) {
                     Kokkos::View<double*> g_view("g", g.size());
-                    set_kokkos_view(g_view, g);
+                    set_kokkos_view(g_view, ArrayIn<double>(g));
                     auto f = self.evaluate_gradient_simple(create_kokkos_view("x", x), g_view);
                     auto g_vector = view2vector(g_view);
                     for (int i=0; i<g.size(); ++i)
diff --git a/symmetrix/source/cpp/utilities_kokkos.hpp b/symmetrix/source/cpp/utilities_kokkos.hpp
index ada4de5..620e8ac 100644
--- a/symmetrix/source/cpp/utilities_kokkos.hpp
+++ b/symmetrix/source/cpp/utilities_kokkos.hpp
@@ -11,10 +11,14 @@
 
 namespace py = pybind11;
 
+// inputs are read through plain pointers, so other types and layouts are converted
+template<typename T>
+using ArrayIn = py::array_t<T, py::array::c_style|py::array::forcecast>;
+
 template<typename T>
 Kokkos::View<const T*> create_kokkos_view(
     std::string label,
-    py::array_t<T> array)
+    ArrayIn<T> array)
 {
     return create_mirror_view_and_copy(
         Kokkos::DefaultExecutionSpace(),
@@ -25,7 +29,7 @@ Kokkos::View<const T*> create_kokkos_view(
 template<typename T>
 void set_kokkos_view(
     Kokkos::View<T*>& view,
-    py::array_t<T> array)
+    ArrayIn<T> array)
 {
     auto d_array = Kokkos::create_mirror_view_and_copy(
         Kokkos::DefaultExecutionSpace(),
@@ -40,7 +44,7 @@ void set_kokkos_view(
 template<typename T>
 void set_kokkos_view(
     Kokkos::View<T**,Kokkos::LayoutRight>& view,
-    py::array_t<T> array,
+    ArrayIn<T> array,
     const int N0,
     const int N1)
 {
@@ -58,7 +62,7 @@ void set_kokkos_view(
 template<typename T>
 void set_kokkos_view(
     Kokkos::View<T***,Kokkos::LayoutRight>& view,
-    py::array_t<T> array,
+    ArrayIn<T> array,
     const int N0,
     const int N1,
     const int N2)
-- 
2.43.0


From 9c74f7ab278bdfd6b6f8a9fb7b4f0e94fc6b3347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:44 +0000
Subject: [PATCH 23/25] fix: refuse output arrays the Kokkos bindings cannot
 write to

---
 symmetrix/source/cpp/cubic_spline_set_kokkos.cpp       |  9 +++++----
 symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp  | 10 +++++-----
 .../source/cpp/multivariate_polynomial_kokkos.cpp      |  8 ++++----
 symmetrix/source/cpp/utilities_kokkos.hpp              |  3 +++
 4 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/symmetrix/source/cpp/cubic_spline_set_kokkos.cpp b/symmetrix/source/cpp/cubic_spline_set_kokkos.cpp
index cbd22f3..fd78145 100644
--- a/symmetrix/source/cpp/cubic_spline_set_kokkos.cpp
+++ b/symmetrix/source/cpp/cubic_spline_set_kokkos.cpp
@@ -2,6 +2,7 @@
 #include <pybind11/numpy.h>
 #include <pybind11/stl.h>
 
+#include "utilities_kokkos.hpp"
 #include "cubic_spline_set_kokkos.hpp"
 
 namespace py = pybind11;
@@ -11,14 +12,14 @@ void bind_cubic_spline_set_kokkos(py::module_ &m)
     py::class_<CubicSplineSetKokkos>(m, "CubicSplineSetKokkos")
         .def(py::init<double,std::vector<std::vector<double>>,std::vector<std::vector<double>>>())
         .def("evaluate",
-            [](CubicSplineSetKokkos& self, double r, py::array_t<double> values_numpy) {
+            [](CubicSplineSetKokkos& self, double r, ArrayOut values_numpy) {
                 auto values = std::span<double>(values_numpy.mutable_data(), values_numpy.size());
                 self.evaluate(r, values);
-            })
+            }, py::arg("r"), py::arg("values").noconvert())
         .def("evaluate_derivs",
-            [](CubicSplineSetKokkos& self, double r, py::array_t<double> values_numpy, py::array_t<double> derivs_numpy) {
+            [](CubicSplineSetKokkos& self, double r, ArrayOut values_numpy, ArrayOut derivs_numpy) {
                auto values = std::span<double>(values_numpy.mutable_data(), values_numpy.size());
                auto derivs = std::span<double>(derivs_numpy.mutable_data(), derivs_numpy.size());
                self.evaluate_derivs(r, values, derivs);
-            });
+            }, py::arg("r"), py::arg("values").noconvert(), py::arg("derivs").noconvert());
 }
diff --git a/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp b/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp
index 7c24c82..54cf33f 100644
--- a/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp
+++ b/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp
@@ -16,7 +16,7 @@ void bind_multilayer_perceptron_kokkos(py::module_ &m)
         .def("evaluate",
             [](MultilayerPerceptronKokkos& self,
                     ArrayIn<double> x,
-                    py::array_t<double> f) {
+                    ArrayOut f) {
                 auto h_x = Kokkos::View<const double**,
                                         Kokkos::LayoutRight,
                                         Kokkos::HostSpace,
@@ -29,12 +29,12 @@ void bind_multilayer_perceptron_kokkos(py::module_ &m)
                 auto d_f = Kokkos::create_mirror_view_and_copy(Kokkos::DefaultExecutionSpace(), h_f);
                 self.evaluate(d_x, d_f);
                 Kokkos::deep_copy(h_f, d_f);
-            })
+            }, py::arg("x"), py::arg("f").noconvert())
         .def("evaluate_gradient",
             [](MultilayerPerceptronKokkos& self,
                     ArrayIn<double> x,
-                    py::array_t<double> f,
-                    py::array_t<double> g) {
+                    ArrayOut f,
+                    ArrayOut g) {
                 auto h_x = Kokkos::View<const double**,
                                         Kokkos::LayoutRight,
                                         Kokkos::HostSpace,
@@ -53,6 +53,6 @@ void bind_multilayer_perceptron_kokkos(py::module_ &m)
                 self.evaluate_gradient(d_x, d_f, d_g);
                 Kokkos::deep_copy(h_f, d_f);
                 Kokkos::deep_copy(h_g, d_g);
-            })
+            }, py::arg("x"), py::arg("f").noconvert(), py::arg("g").noconvert())
         ;
 }
diff --git a/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp b/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp
index 1333f34..ff7b8dd 100644
--- a/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp
+++ b/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp
@@ -26,7 +26,7 @@ void bind_multivariate_polynomial_kokkos(py::module_ &m)
         .def("evaluate_gradient",
             [] (MultivariatePolynomialKokkos& self,
                 ArrayIn<const double> x,
-                py::array_t<double> g) {
+                ArrayOut g) {
                     Kokkos::View<double*> g_view("g", g.size());
                     set_kokkos_view(g_view, ArrayIn<double>(g));
                     auto f = self.evaluate_gradient(create_kokkos_view("x", x), g_view);
@@ -34,11 +34,11 @@ void bind_multivariate_polynomial_kokkos(py::module_ &m)
                     for (int i=0; i<g.size(); ++i)
                         g.mutable_data()[i] = g_vector[i];
                     return f;
-                })
+                }, py::arg("x"), py::arg("g").noconvert())
         .def("evaluate_gradient_simple",
             [] (MultivariatePolynomialKokkos& self,
                 ArrayIn<const double> x,
-                py::array_t<double> g) {
+                ArrayOut g) {
                     Kokkos::View<double*> g_view("g", g.size());
                     set_kokkos_view(g_view, ArrayIn<double>(g));
                     auto f = self.evaluate_gradient_simple(create_kokkos_view("x", x), g_view);
@@ -46,6 +46,6 @@ void bind_multivariate_polynomial_kokkos(py::module_ &m)
                     for (int i=0; i<g.size(); ++i)
                         g.mutable_data()[i] = g_vector[i];
                     return f;
-                })
+                }, py::arg("x"), py::arg("g").noconvert())
         ;
 }
diff --git a/symmetrix/source/cpp/utilities_kokkos.hpp b/symmetrix/source/cpp/utilities_kokkos.hpp
index 620e8ac..5e209c7 100644
--- a/symmetrix/source/cpp/utilities_kokkos.hpp
+++ b/symmetrix/source/cpp/utilities_kokkos.hpp
@@ -15,6 +15,9 @@ namespace py = pybind11;
 template<typename T>
 using ArrayIn = py::array_t<T, py::array::c_style|py::array::forcecast>;
 
+// outputs are written through plain pointers, so other types and layouts are refused
+using ArrayOut = py::array_t<double, py::array::c_style>;
+
 template<typename T>
 Kokkos::View<const T*> create_kokkos_view(
     std::string label,
-- 
2.43.0


From a5de7588aea96da8c1fa84a18fedb8ddb9fde53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:44 +0000
Subject: [PATCH 24/25] fix: spherical harmonics on the z axis and for y = 0, x
 < 0

The azimuth was sign(y)*acos(x/sqrt(x^2+y^2)): 0/0 on the z axis, and zero
instead of pi on the negative x axis.
---
 libsymmetrix/source/spherical_harmonic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/spherical_harmonic.cpp b/libsymmetrix/source/spherical_harmonic.cpp
index 1e2957c..9b44705 100644
--- a/libsymmetrix/source/spherical_harmonic.cpp
+++ b/libsymmetrix/source/spherical_harmonic.cpp
@@ -21,7 +21,7 @@ std::complex<double> sph_harm(int l, int m, double polar, double azimuth) {
 std::complex<double> sph_harm_xyz(int l, int m, double x, double y, double z) {
     double r = std::sqrt(x*x+y*y+z*z);
     double polar = std::acos(z/r);
-    double azimuth = ((y>0)-(y<0)) * std::acos(x/std::sqrt(x*x+y*y));
+    double azimuth = std::atan2(y, x);
     return sph_harm(l, m, polar, azimuth);
 }
 
@@ -38,7 +38,7 @@ double real_sph_harm(int l, int m, double polar, double azimuth) {
 double real_sph_harm_xyz(int l, int m, double x, double y, double z) {
     double r = std::sqrt(x*x+y*y+z*z);
     double polar = std::acos(z/r);
-    double azimuth = ((y>0)-(y<0)) * std::acos(x/std::sqrt(x*x+y*y));
+    double azimuth = std::atan2(y, x);
     return real_sph_harm(l, m, polar, azimuth);
 }
 
-- 
2.43.0


From a1b10f33410d2cad7ad2818287a552414711cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:44 +0000
Subject: [PATCH 25/25] fix: installing into a LAMMPS tree twice, or
 interrupted, broke its build

A second run appended add_subdirectory again, which cmake refuses; a kill or a
full disk during the append left half of the instructions. Append them once, to
a copy that replaces CMakeLists.txt when complete.
---
 pair_symmetrix/install.sh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pair_symmetrix/install.sh b/pair_symmetrix/install.sh
index c6f1a45..9cbfab9 100755
--- a/pair_symmetrix/install.sh
+++ b/pair_symmetrix/install.sh
@@ -17,10 +17,15 @@ ln -sf $(pwd)/pair_symmetrix_mace.cpp ${lammps}/src/pair_symmetrix_mace.cpp
 ln -sf $(pwd)/pair_symmetrix_mace_kokkos.h ${lammps}/src/KOKKOS/pair_symmetrix_mace_kokkos.h
 ln -sf $(pwd)/pair_symmetrix_mace_kokkos.cpp ${lammps}/src/KOKKOS/pair_symmetrix_mace_kokkos.cpp
 
-# update lammps build instructions
-echo "
+# update lammps build instructions, once and completely or not at all
+cmakelists=${lammps}/cmake/CMakeLists.txt
+if ! grep -q "target_link_libraries(lammps PRIVATE symmetrix)" ${cmakelists}; then
+    cp -p ${cmakelists} ${cmakelists}.tmp
+    echo "
 add_subdirectory($(pwd)/../libsymmetrix libsymmetrix)
 target_include_directories(lammps PRIVATE $(pwd)/../libsymmetrix/source)
 target_link_libraries(lammps PRIVATE symmetrix)
 install(TARGETS symmetrix EXPORT LAMMPS_Targets)
-" >> $lammps/cmake/CMakeLists.txt
+" >> ${cmakelists}.tmp
+    mv ${cmakelists}.tmp ${cmakelists}
+fi
-- 
2.43.0

