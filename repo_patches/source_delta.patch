From e1dc0fc9633eb21290cdec6e46de5e5c8b02c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 01/57] fix: turning double counting off keeps bonds stored
 only in mirrored form

---
 src/magnopy/spinham/hamiltonian.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 29df8ca..007afd5 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -352,9 +352,7 @@ class SpinHamiltonian(Crystal):
             else:
                 # If mirrored bond is not in the model, then remember it for addition
                 if (atom2, atom1, (-i, -j, -k)) not in self:
-                    bonds_to_add.append(
-                        atom2, atom1, (-i, -j, -k), parameter=parameter.T
-                    )
+                    bonds_to_add.append((atom2, atom1, (-i, -j, -k), parameter.T))
                 # Remember the bond for removal
                 bonds_to_remove.append((atom1, atom2, (i, j, k)))
 
-- 
2.43.0


From 7b68718ada582a90a352b46ec1750f327c0918d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 02/57] fix: turning double counting off does not remove a bond
 that is its own mirror

---
 src/magnopy/spinham/hamiltonian.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 007afd5..f8d50d6 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -346,7 +346,10 @@ class SpinHamiltonian(Crystal):
                 or (i == 0 and j == 0 and k == 0 and atom1.index <= atom2.index)
             ):
                 # Remember  mirrored bond  for removal, if it is in the model
-                if (atom2, atom1, (-i, -j, -k)) in self:
+                # Note: bond of the atom with itself is its own mirrored bond
+                if (atom2, atom1, (-i, -j, -k)) in self and not (
+                    (i, j, k) == (0, 0, 0) and atom1 == atom2
+                ):
                     bonds_to_remove.append((atom2, atom1, (-i, -j, -k)))
             # If mirrored bond has to stay
             else:
-- 
2.43.0


From 7a4b5758d8bcfd6558d181a4285d0b9c31de995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 03/57] fix: turning double counting on does not overwrite
 mirrored bonds that are present

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index f8d50d6..b4ccd24 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -314,7 +314,7 @@ class SpinHamiltonian(Crystal):
         bonds_to_add = []
         for atom1, atom2, (i, j, k), parameter in self.exchange:
             # Remember the mirrored bond if it is not in the Hamiltonian yet
-            if (atom2, atom1, (-i, -j, -k)) not in self.exchange:
+            if (atom2, atom1, (-i, -j, -k)) not in self:
                 bonds_to_add.append((atom2, atom1, (-i, -j, -k), parameter.T))
 
         # Add all missing bonds
-- 
2.43.0


From 786fbe0691b7934cbaff11e7be4a9df2960884c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 04/57] fix: remove_atom does not fail on bonds removed
 together with their mirrors

---
 src/magnopy/spinham/hamiltonian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index b4ccd24..0482c6c 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -955,7 +955,9 @@ class SpinHamiltonian(Crystal):
         for parameter in parameters_for_removal:
             # Parameter has different type (tuple or atom) but the same syntax
             # works for both, see __delitem__ for details
-            del self[parameter]
+            # Mirrored bond might be already removed if double counting is on
+            if parameter in self:
+                del self[parameter]
 
         # Remove an atom from the crystal
         super().remove_atom(atom)
-- 
2.43.0


From 926b6bbfcafc2072704b9c133128158ef02dcabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 05/57] fix: remove_on_site accepts the name of an atom

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 0482c6c..9826144 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -817,7 +817,7 @@ class SpinHamiltonian(Crystal):
 
         # If atom is a string, get the atom object
         if isinstance(atom, str):
-            atom1 = self.get_atom(atom)
+            atom = self.get_atom(atom)
 
         try:
             del self._on_site[atom]
-- 
2.43.0


From 2f1ea012f536cd72eba7e450250d88a96dc9e72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 06/57] fix: remove_exchange names both atoms of the missing
 bond

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 9826144..b325bcc 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -755,7 +755,7 @@ class SpinHamiltonian(Crystal):
         except KeyError:
             if raise_if_no_bond:
                 raise KeyError(
-                    f"Bond ({atom2.fullname}, {atom2.fullname}, {ijk}) "
+                    f"Bond ({atom1.fullname}, {atom2.fullname}, {ijk}) "
                     + "is not present in the Hamiltonian."
                 )
 
-- 
2.43.0


From 5e176e558eb1b4762080cdb22433226b57451104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:41 +0000
Subject: [PATCH 07/57] fix: overwriting a bond updates its mirrored bond if
 double counting is on

---
 src/magnopy/spinham/hamiltonian.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index b325bcc..2826f02 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -715,9 +715,11 @@ class SpinHamiltonian(Crystal):
         # Check for double counting
         try:
             i, j, k = ijk
-            if (
-                self.double_counting
-                and (atom2, atom1, (-i, -j, -k)) not in self._exchange
+            # Bond of the atom with itself is its own mirrored bond
+            if self.double_counting and (atom2, atom1, (-i, -j, -k)) != (
+                atom1,
+                atom2,
+                ijk,
             ):
                 self._exchange[(atom2, atom1, (-i, -j, -k))] = parameter.T
         # If it fails, then we do not need to add a mirrored bond, since the notation
-- 
2.43.0


From 6b699356505116a836ca1aedb04ec6d0ec02ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:41 +0000
Subject: [PATCH 08/57] fix: parameters given by the user are copied to the
 Hamiltonian

---
 src/magnopy/spinham/hamiltonian.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 2826f02..6c4c883 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -709,6 +709,10 @@ class SpinHamiltonian(Crystal):
         # Construct parameter if it is not given
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
+        # Every bond has its own parameter, otherwise notation change scales
+        # the shared one several times
+        else:
+            parameter = deepcopy(parameter)
 
         self._exchange[(atom1, atom2, ijk)] = parameter
 
@@ -802,6 +806,9 @@ class SpinHamiltonian(Crystal):
         # Construct parameter if it is not given
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
+        # Every atom has its own parameter, see add_exchange for details
+        else:
+            parameter = deepcopy(parameter)
 
         self._on_site[atom] = parameter
 
-- 
2.43.0


From 9a3c3465fb78ea3692ee4c0114a45aa14d4cdd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:41 +0000
Subject: [PATCH 09/57] fix: scale on-site terms from the on-site to the
 exchange factor in exchange_like

---
 src/magnopy/spinham/hamiltonian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 6c4c883..7698f9b 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -122,7 +122,7 @@ class SpinHamiltonian(Crystal):
         * On-site parameters: ``atom, atom, (0,0,0), parameter``
 
         On-site parameters are scaled with the factor
-        :py:attr:`.exchange_factor`/:py:attr:`.on_site_factor`
+        :py:attr:`.on_site_factor`/:py:attr:`.exchange_factor`
 
         It is an iterator.
         """
@@ -1062,7 +1062,7 @@ class _SpinHamiltonianExchangeLikeIterator:
         self.iterator2 = spinham._exchange.__iter__()
         self.index1 = 0
         self.index2 = 0
-        self.scale_factor = spinham.exchange_factor / spinham.on_site_factor
+        self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
 
     def __next__(self) -> Tuple[Atom, Atom, tuple, MatrixParameter]:
         # First return all on-site terms
-- 
2.43.0


From a88ad849d2913179fddc230afa85e5604f17dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:41 +0000
Subject: [PATCH 10/57] fix: count returned exchange terms in the exchange_like
 iterator

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 7698f9b..d15e78c 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -1076,7 +1076,7 @@ class _SpinHamiltonianExchangeLikeIterator:
         elif self.index2 < self.length2:
             atom1, atom2, ijk = self.iterator2.__next__()
             result = (atom1, atom2, ijk, self.container2[atom1, atom2, ijk])
-            self.index1 += 1
+            self.index2 += 1
             return result
         raise StopIteration
 
-- 
2.43.0


From 6cfa87284a77ce2a772cc145c241bbdb9bff474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:41 +0000
Subject: [PATCH 11/57] fix: crystal of the Hamiltonian does not share its
 atoms

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index d15e78c..9c22084 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -989,7 +989,7 @@ class SpinHamiltonian(Crystal):
         --------
         Crystal
         """
-        return Crystal(self.lattice, self.atoms)
+        return Crystal(self.lattice, deepcopy(self.atoms))
 
 
 class _SpinHamiltonianExchangeIterator:
-- 
2.43.0


From 900e44391c86e1bd169768357fabd33126fe39c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 12/57] fix: Energy evaluates the Hamiltonian in the notation
 its formulas need, on a copy

---
 src/magnopy/spinham/energy.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 8141c8c..315b9b3 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -547,6 +547,14 @@ class Energy:
     """
 
     def __init__(self, spinham: SpinHamiltonian):
+        # Work with the copy, so the original Hamiltonian stays intact and
+        # later changes of it do not affect the energy
+        _, _, exchange_factor, on_site_factor = spinham.notation
+        spinham = spinham.copy()
+
+        # Force the notation that is expected by the energy functions
+        spinham.notation = (True, False, exchange_factor, on_site_factor)
+
         # Parameters of the Hamiltonian, private
         self._factor = spinham.exchange_factor
         self._atom_indices = dict(
@@ -557,10 +565,6 @@ class Energy:
         self._g_factors = [atom.g_factor for atom in spinham.magnetic_atoms]
         self._spins = [atom.spin for atom in spinham.magnetic_atoms]
 
-        # Force double counting notation
-        previous_dc = spinham.double_counting
-        spinham.double_counting = True
-
         # Get all bonds of the Hamiltonian.
         self._bonds = []
         for atom1, atom2, R, J in spinham.exchange_like:
@@ -569,9 +573,6 @@ class Energy:
             d = R @ spinham.cell
             self._bonds.append([i, j, d, J])
 
-        # Return original noatation of SpinHamiltonian
-        spinham.double_counting = previous_dc
-
         # Minimisation settings, exposed to public as properties
         self._m = 10
 
-- 
2.43.0


From c3c35805275bf5c4a1ec6eeb19250859e9dec092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 13/57] fix: wolfe_c2 returns the second Wolfe coefficient

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 315b9b3..23fff37 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -674,7 +674,7 @@ class Energy:
         c2 : float
         """
 
-        return self._wolfe_c1
+        return self._wolfe_c2
 
     @wolfe_c2.setter
     def wolfe_c2(self, new_value):
-- 
2.43.0


From ea1b680020d564327ca5e13f0ba7382fcc63796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 14/57] fix: g_factors and spins of Energy can be set and are
 not truncated to integers

---
 src/magnopy/spinham/energy.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 23fff37..3929479 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -739,7 +739,7 @@ class Energy:
 
     @g_factors.setter
     def g_factors(self, new_value):
-        if not isinstance(Iterable):
+        if not isinstance(new_value, Iterable):
             raise ValueError(f"New g factors must be an Iterable: {new_value}")
 
         if not len(new_value) == len(self._spins):
@@ -747,15 +747,16 @@ class Energy:
                 f"Expecten {len(self._spins)} g factors, got {len(new_value)}"
             )
 
+        g_factors = []
         for i, g_factor in enumerate(new_value):
             try:
-                new_value[i] = int(g_factor)
+                g_factors.append(float(g_factor))
             except:
                 raise ValueError(
                     f"One of the new g_factors (index {i}) is not "
-                    f"an integer:{g_factor}."
+                    f"a number:{g_factor}."
                 )
-        self._g_factors = new_value
+        self._g_factors = g_factors
 
     @property
     def spins(self):
@@ -771,20 +772,21 @@ class Energy:
 
     @spins.setter
     def spins(self, new_value):
-        if not isinstance(Iterable):
+        if not isinstance(new_value, Iterable):
             raise ValueError(f"New spins must be an Iterable: {new_value}")
 
         if not len(new_value) == len(self._spins):
             raise ValueError(f"Expected {len(self._spins)} spins, got {len(new_value)}")
 
+        spins = []
         for i, spin in enumerate(new_value):
             try:
-                new_value[i] = int(spin)
+                spins.append(float(spin))
             except:
                 raise ValueError(
-                    f"One of the new spins (index {i}) is not " f"an integer:{spin}."
+                    f"One of the new spins (index {i}) is not " f"a number:{spin}."
                 )
-        self._spins = new_value
+        self._spins = spins
 
     ################################################################################
     #                              Gradients of energy                             #
-- 
2.43.0


From e602a5c5ee4e2337bf93ab7a24968d215c8946cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 15/57] fix: raise RuntimeError instead of an undefined name in
 history processors

---
 src/magnopy/spinham/energy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 3929479..3bb5fb0 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -417,7 +417,7 @@ def _default_history_processor_ferro(history, filename=None, nspins=None):
     if history is None:
         if nspins is None:
             _logger.error("If history is None, then nspins is required.")
-            raise RunTimeError("If history is None, then nspins is required.")
+            raise RuntimeError("If history is None, then nspins is required.")
         header = f"{'Energy':>15} {'Torque':>11}"
 
         for i in range(nspins):
@@ -447,7 +447,7 @@ def _default_history_processor_antiferro(history, filename=None, nspins=None):
     if history is None:
         if nspins is None:
             _logger.error("If history is None, then nspins is required.")
-            raise RunTimeError("If history is None, then nspins is required.")
+            raise RuntimeError("If history is None, then nspins is required.")
         header = f"{'Energy':>15} {'Torque':>11} {'Torque_n':>11}"
 
         for i in range(nspins):
@@ -487,7 +487,7 @@ def _default_history_processor_spiral(history, filename=None, nspins=None):
     if history is None:
         if nspins is None:
             _logger.error("If history is None, then nspins is required.")
-            raise RunTimeError("If history is None, then nspins is required.")
+            raise RuntimeError("If history is None, then nspins is required.")
         header = f"{'Energy':>15} {'Torque':>11} {'Torque_n':>11}"
 
         for i in range(nspins):
-- 
2.43.0


From cce3981893089f782706c3a4b12e8b5adcf7ed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 16/57] fix: wrong initial guess is reported with ValueError

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 3bb5fb0..c1c4efc 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -56,7 +56,7 @@ def _starting_ferro(n_spins, initial_guess=None):
         try:
             spin_orientation = np.array(initial_guess, dtype=float)
         except:
-            raise ValueError(f"spin_orientation is not array-like: {spin_orientation}")
+            raise ValueError(f"spin_orientation is not array-like: {initial_guess}")
 
         if spin_orientation.shape[-1] != 3:
             raise ValueError(
-- 
2.43.0


From 381a0763657f21fe9bca16e8d540eef4dfb1cc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 17/57] fix: gradient of the cone axis does not overwrite the
 last spin in the antiferro case

---
 src/magnopy/spinham/energy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index c1c4efc..575ff7b 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -242,9 +242,9 @@ def _update_x_antiferro(x, search_direction, step=1):
     """
     x_0 = x[0].copy()
     x_1 = x[1]
-    a12 = search_direction[:-3:3] * step
-    a13 = search_direction[1:-3:3] * step
-    a23 = search_direction[2:-3:3] * step
+    a12 = search_direction[::3] * step
+    a13 = search_direction[1::3] * step
+    a23 = search_direction[2::3] * step
 
     thetas = np.sqrt(a12**2 + a13**2 + a23**2)
 
@@ -911,9 +911,9 @@ class Energy:
         t = np.cross(cone_axis, gradient)
         for j in range(0, 3):
             torques[-1][j] = t[j]
-        gradient_vector[-6] = t[2]
-        gradient_vector[-5] = -t[1]
-        gradient_vector[-4] = t[0]
+        gradient_vector[-3] = t[2]
+        gradient_vector[-2] = -t[1]
+        gradient_vector[-1] = t[0]
 
         if return_results:
             return gradient_vector, torques
-- 
2.43.0


From a4740b2e49a61f7176be3e00fd239551ea282f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 18/57] fix: initialise the attribute with the size of the
 torques

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 575ff7b..17b3a44 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -584,7 +584,7 @@ class Energy:
         # Minimization settings, private
         # Gradient size depends on the expected ground state.
         self._gradient_size = None  # Have to be initialized at the beginning of every optimization function
-        self._torques_size = None  # Have to be initialized at the beginning of every optimization function
+        self._torque_size = None  # Have to be initialized at the beginning of every optimization function
 
         # External physical conditions
         self._magnetic_field = None
-- 
2.43.0


From 5c9d6e00f2ce0da7d5d19a26cfa31303accbbc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 19/57] fix: Zeeman energy is proportional to the spin values

---
 src/magnopy/spinham/energy.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 17b3a44..391c341 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1087,7 +1087,11 @@ class Energy:
         # Compute zeeman energy
         if self.magnetic_field is not None:
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, spin_orientation
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                spin_orientation,
             )
 
         return energy
@@ -1205,7 +1209,11 @@ class Energy:
                 "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
             )
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, so_prime
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                so_prime,
             )
 
         return energy
@@ -1326,7 +1334,11 @@ class Energy:
                 "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
             )
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, so_prime
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                so_prime,
             )
 
         return energy
-- 
2.43.0


From 696a645d86d33acd0e03a025e88dcfb384d493fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 20/57] fix: only spin components along the cone axis
 contribute to the Zeeman energy

---
 src/magnopy/spinham/energy.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 391c341..b4d7a18 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1205,9 +1205,7 @@ class Energy:
 
         # Compute zeeman energy
         if self.magnetic_field is not None:
-            so_prime = np.einsum(
-                "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
-            )
+            so_prime = np.einsum("jk,ik ->ij", IK_sq, spin_orientation)
             energy += BOHR_MAGNETON * np.einsum(
                 "i,i,j,ij",
                 self._g_factors,
@@ -1330,9 +1328,7 @@ class Energy:
 
         # Compute zeeman energy
         if self.magnetic_field is not None:
-            so_prime = np.einsum(
-                "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
-            )
+            so_prime = np.einsum("jk,ik ->ij", IK_sq, spin_orientation)
             energy += BOHR_MAGNETON * np.einsum(
                 "i,i,j,ij",
                 self._g_factors,
-- 
2.43.0


From 0363e97d7be36a37e790852186eb4aa7e31f251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 21/57] fix: spiral vector is moved downhill in the spiral
 optimisation

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index b4d7a18..723f3d1 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1018,7 +1018,7 @@ class Energy:
             )
         # print(f"\n\n{gradient}\n\n")
 
-        gradient_vector[-3:] = gradient
+        gradient_vector[-3:] = -gradient
 
         if return_results:
             return gradient_vector, torques
-- 
2.43.0


From a71cdf6db8b77df02293bc4f1d93c0488496eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 22/57] fix: exchange parameters in Joule can be read from txt
 files

---
 src/magnopy/io/txt/internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 325cd5a..24fb86b 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -654,7 +654,7 @@ def _read_exchange(lines, spinham):
             + f"Will be converted to {ENERGY_NAME}.",
         )
     elif units.startswith("j"):
-        units_conversion = 1 / ENERGY_UNITS
+        units_conversion = 1 / ENERGY
         _logger.info(
             "Exchange parameters are provided in Joule. "
             + f" Will be converted to {ENERGY_NAME}.",
-- 
2.43.0


From 0c01d42a74e1f3eb04eeab20f7970b92155b96e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 23/57] fix: units of exchange parameters in txt files are
 taken into account

---
 src/magnopy/io/txt/internal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 24fb86b..a8ba89e 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -761,10 +761,11 @@ def _read_bond(lines, spinham: SpinHamiltonian, units_conversion=1):
             for j in range(3):
                 i += 1
                 matrix[j] = [float(x) for x in lines[i].split()]
-        spinham.add_exchange(
-            name1, name2, R, matrix=matrix, iso=iso, aniso=symm, dmi=dmi
-        )
         i += 1
+
+    # Convert units of the parameter and add it to the Hamiltonian
+    parameter = MatrixParameter(matrix=matrix, iso=iso, aniso=symm, dmi=dmi)
+    spinham.add_exchange(name1, name2, R, parameter * units_conversion)
     return spinham
 
 
-- 
2.43.0


From e4acfd8863d833b083652ab1c2cfd27601f66793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 24/57] fix: spiral vector from txt files is stored in relative
 coordinates

---
 src/magnopy/io/txt/internal.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index a8ba89e..3526767 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -957,7 +957,7 @@ def _read_cone_axis(lines, spinham: SpinHamiltonian):
     return spinham
 
 
-def _read_spiral_vector(lines, spinham: SpinHamiltonian):
+def _read_spiral_vector(lines, spinham: SpinHamiltonian, units_conversion=1):
     R"""
     Read information from the spiral-vector section as described in the documentation.
 
@@ -981,6 +981,9 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
         Parameters section of the input file.
     spinham : :py:class:`.SpinHamiltonian`
         Spin Hamiltonian, where the data are saved.
+    units_conversion : float, default 1
+        Conversion factor for the length units of the cell. Absolute coordinates of the
+        spiral vector are given in the inverse units of the cell.
 
     Returns
     -------
@@ -1017,8 +1020,11 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
 
     q = [float(x) for x in lines[1].split()]
 
-    if relative:
-        q = q @ spinham.reciprocal_cell
+    # Spiral vector is stored in the relative coordinates
+    if not relative:
+        q = absolute_to_relative(
+            np.array(q, dtype=float) / units_conversion, spinham.reciprocal_cell
+        )
 
     spinham.spiral_vector = q
 
@@ -1156,6 +1162,15 @@ def load_spinham_txt(filename, save_filtered=False, verbose=False) -> SpinHamilt
 
     # If present read spiral-vector
     if "spiral-vector" in sections:
-        _read_spiral_vector(lines[slice(*sections["spiral-vector"])], spinham)
+        # Absolute coordinates are given in the inverse units of the cell
+        units_conversion = 1
+        cell_header = lines[sections["cell"][0]].lower().split()
+        if len(cell_header) == 2 and cell_header[1].startswith("b"):
+            units_conversion = BOHR_RADIUS / LENGTH
+        _read_spiral_vector(
+            lines[slice(*sections["spiral-vector"])],
+            spinham,
+            units_conversion=units_conversion,
+        )
 
     return spinham
-- 
2.43.0


From 4b2a46ecded8dc86e31f203d66e00e9e68535a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 25/57] fix: filtered copy of a txt file can be saved for any
 path

---
 src/magnopy/io/txt/internal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 3526767..707b165 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -17,6 +17,7 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 import logging
+import os
 
 import numpy as np
 from wulfric import TORADIANS, Atom, absolute_to_relative, volume
@@ -1092,7 +1093,8 @@ def _filter_txt_file(filename=None, lines=None, save_filtered=False):
 
     # Save filtered copy of the file
     if save_filtered:
-        filtered_filename = f"filtered_{filename}"
+        directory, basename = os.path.split(filename)
+        filtered_filename = os.path.join(directory, f"filtered_{basename}")
         with open(filtered_filename, "w", encoding="utf-8") as f:
             f.write("\n".join(filtered_lines))
         _logger.debug(
-- 
2.43.0


From 518f3a838a70b3811bb6c64ab61f33829ed3db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 26/57] fix: missing data of atoms ("-" symbol) are accepted in
 txt files as documented

---
 src/magnopy/io/txt/internal.py | 13 +++++++++----
 src/magnopy/io/txt/verify.py   | 16 ++++++++++++++++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 707b165..8b52b35 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -481,15 +481,20 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
     )
 
     # Read atom's data header
-    data_header = lines[1].lower().split()
+    full_data_header = lines[1].lower().split()
 
     # Read atoms's information
     for line in lines[2:]:
         line = line.split()
+        # Blocks with the "-" symbol are skipped for this atom
+        data_header = [
+            keyword if block != "-" else None
+            for keyword, block in zip(full_data_header, line)
+        ]
         name = line[data_header.index("name")]
 
         # Find the coordinates
-        if "r1" in data_header:
+        if {"r1", "r2", "r3"}.issubset(data_header):
             relative = True
             _logger.info(f"Atom {name}: Relative coordinates are detected.")
             position = (
@@ -523,13 +528,13 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
             g = 2.0
 
         # Find spin
-        if "sx" in data_header:
+        if {"sx", "sy", "sz"}.issubset(data_header):
             spin = (
                 float(line[data_header.index("sx")]),
                 float(line[data_header.index("sy")]),
                 float(line[data_header.index("sz")]),
             )
-        elif "sp" in data_header:
+        elif {"sp", "st", "s"}.issubset(data_header):
             phi = float(line[data_header.index("sp")])
             theta = float(line[data_header.index("st")])
             s = float(line[data_header.index("s")])
diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 0a6f93b..0c97c47 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -767,6 +767,22 @@ def _verify_atoms(lines, line_indices):
             errors = errors or _verify_atom_name(line[name_index], line_indices[i])
             allowed_atoms.add(line[name_index])
 
+        # Check that the position of the atom is not skipped
+        given_keywords = {
+            keyword
+            for keyword, block in zip(lines[1].lower().split(), line)
+            if block != "-"
+        }
+        if not (
+            given_keywords.issuperset({"r1", "r2", "r3"})
+            or given_keywords.issuperset({"x", "y", "z"})
+        ):
+            errors = True
+            _logger.error(
+                f"Line {line_indices[i]}: expected to have all three coordinates "
+                f'of the atom, got "{lines[i]}"'
+            )
+
         # Check other data fields
         for b_i, block in enumerate(line):
             # Skip the name
-- 
2.43.0


From b9f4c9cc5a7433d3acea68c248b31e93ad9b0f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 27/57] fix: too short lines in the atoms section are reported
 by the verification

---
 src/magnopy/io/txt/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 0c97c47..5b09e9c 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -763,7 +763,7 @@ def _verify_atoms(lines, line_indices):
             )
 
         # Check atom's names if any
-        if name_index is not None:
+        if name_index is not None and name_index < len(line):
             errors = errors or _verify_atom_name(line[name_index], line_indices[i])
             allowed_atoms.add(line[name_index])
 
-- 
2.43.0


From 2b3fbe8f08483efb8419d1a2d110da601abe147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 28/57] fix: relative units of the atoms section are accepted
 by the verification

---
 src/magnopy/io/txt/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 5b09e9c..164a5ce 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -738,7 +738,7 @@ def _verify_atoms(lines, line_indices):
     # Starting from this line it is assumed that the section has at least 3 lines
 
     # Check the section header
-    errors = errors or _verify_section_header(lines[0], line_indices[0], ["a", "b"])
+    errors = errors or _verify_section_header(lines[0], line_indices[0], ["a", "b", "r"])
 
     # Check the data header
     N, name_index, data_header_errors = _verify_atoms_data_header(
-- 
2.43.0


From 72434934b223ade41934b9c58f373d134ca94278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 29/57] fix: verification fails if notation section is required
 but not found

---
 src/magnopy/io/txt/verify.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 164a5ce..9bf879d 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -1507,6 +1507,15 @@ def _verify_model_file(lines, line_indices, raise_on_fail=True, return_sections=
             errors = True
             _logger.error(f'File: failed to find required section "{r_section}"')
 
+    # Notation is required if there are any parameters
+    if (
+        "exchange" in found_sections or "on-site" in found_sections
+    ) and "notation" not in found_sections:
+        errors = True
+        _logger.error(
+            'Section "notation" is required for "exchange" and "on-site" sections'
+        )
+
     # Verify atoms section in advance, since we need to know a set of allowed atoms.
     if "atoms" in found_sections:
         allowed_atoms, atoms_errors = _verify_atoms(
-- 
2.43.0


From 59e5fd52800a6351b7277695a53d7d519025d7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 30/57] fix: bond of the atom with itself is not dropped in txt
 files

---
 src/magnopy/io/txt/internal.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 8b52b35..394e012 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -255,8 +255,6 @@ def dump_spinham_txt(
             text[-1] += f" # {'distance'}"
         text.append(SUBSEPARATOR)
         for atom1, atom2, ijk, parameter in spinham.exchange:
-            if atom1 == atom2 and ijk == (0, 0, 0):
-                continue
             if write_distance:
                 distance = spinham.get_distance(atom1, atom2, ijk)
             else:
-- 
2.43.0


From e842ddf1b6c19ad9f8f91d0acc022cd0493dc19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 31/57] fix: spin angles are written to txt files as numbers

---
 src/magnopy/io/txt/internal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 394e012..cf6ddfd 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -213,8 +213,8 @@ def dump_spinham_txt(
                 S, theta, phi = vector_to_angles(atom.spin_vector, in_degrees=True)
                 text[-1] += " " + " ".join(
                     [
-                        f"t{theta:8.4f}",
-                        f"p{phi:8.4f}",
+                        f"{theta:8.4f}",
+                        f"{phi:8.4f}",
                         f"{S:8.4f}",
                     ]
                 )
-- 
2.43.0


From bad826ad76e8549b5c022654251bfb79b6d73144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 32/57] fix: typos in vector_to_angles

---
 src/magnopy/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/geometry.py b/src/magnopy/geometry.py
index d162c81..f079c58 100644
--- a/src/magnopy/geometry.py
+++ b/src/magnopy/geometry.py
@@ -40,7 +40,7 @@ def vector_to_angles(vector, in_degrees=True):
         Whether to return angles in degrees or radians.
 
     """
-    modulus = np.linalg.notm(vector)
+    modulus = np.linalg.norm(vector)
 
     if np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
         polar, azimuthal = 0, np.pi / 2
@@ -53,7 +53,7 @@ def vector_to_angles(vector, in_degrees=True):
             np.dot(xy_projection, [1, 0, 0]) / np.linalg.norm(xy_projection)
         )
 
-    if in_degreees:
+    if in_degrees:
         return modulus, polar * TODEGREES, azimuthal * TODEGREES
     else:
         return modulus, polar, azimuthal
-- 
2.43.0


From 8e3adf9d028c68755856bf5bee85ff0c559b4e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 33/57] fix: azimuthal angle of vectors with negative y
 component

---
 src/magnopy/geometry.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/magnopy/geometry.py b/src/magnopy/geometry.py
index f079c58..3cdeffb 100644
--- a/src/magnopy/geometry.py
+++ b/src/magnopy/geometry.py
@@ -48,10 +48,7 @@ def vector_to_angles(vector, in_degrees=True):
         polar, azimuthal = np.pi, np.pi / 2
     else:
         polar = np.arccos(np.dot(vector, [0, 0, 1]) / modulus)
-        xy_projection = np.array([vector[0], vector[1], 0])
-        azimuthal = np.arccos(
-            np.dot(xy_projection, [1, 0, 0]) / np.linalg.norm(xy_projection)
-        )
+        azimuthal = np.arctan2(vector[1], vector[0]) % (2 * np.pi)
 
     if in_degrees:
         return modulus, polar * TODEGREES, azimuthal * TODEGREES
-- 
2.43.0


From c395190869291eaa5827b518203dcd1e2f8eb4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 34/57] fix: angles of the zero vector are defined

---
 src/magnopy/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/geometry.py b/src/magnopy/geometry.py
index 3cdeffb..84d5866 100644
--- a/src/magnopy/geometry.py
+++ b/src/magnopy/geometry.py
@@ -42,7 +42,9 @@ def vector_to_angles(vector, in_degrees=True):
     """
     modulus = np.linalg.norm(vector)
 
-    if np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
+    if modulus == 0:
+        polar, azimuthal = 0, 0
+    elif np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
         polar, azimuthal = 0, np.pi / 2
     elif np.allclose(vector / modulus, [0.0, 0.0, -1.0]):
         polar, azimuthal = np.pi, np.pi / 2
-- 
2.43.0


From bbeea63e65a95eb97deff148d5981c229129fd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 35/57] fix: keep the order of atoms and parameters in hdf5
 files with more than nine of them

---
 src/magnopy/io/hdf5/internal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index c462a88..c3a8dbb 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -129,7 +129,7 @@ def load_spinham_hdf5(
 
     # Read the atoms
     atoms = root_group["atoms"]
-    for index in atoms:
+    for index in sorted(atoms, key=int):
         atom = atoms[index]
         name = atom["name"][()].decode("utf-8")
         if _verify_atom_name(name, line_index="hdf5 file"):
@@ -211,7 +211,7 @@ def load_spinham_hdf5(
             )
             raise ValueError(f"Unknown units '{exchange.attrs['units']}'.")
 
-        for index in exchange:
+        for index in sorted(exchange, key=int):
             bond = exchange[index]
             atom1 = bond["atom-1"][()].decode("utf-8")
             try:
@@ -251,7 +251,7 @@ def load_spinham_hdf5(
             )
             raise ValueError(f"Unknown units '{on_site.attrs['units']}'.")
 
-        for index in on_site:
+        for index in sorted(on_site, key=int):
             parameters = on_site[index]
             atom = parameters["atom"][()].decode("utf-8")
             try:
-- 
2.43.0


From 7f995cd0b8ff8f342f431525333ad3c99e593a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 36/57] fix: unknown atom in exchange or on-site group of hdf5
 file is an error

---
 src/magnopy/io/hdf5/internal.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index c3a8dbb..d4072cc 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -218,15 +218,17 @@ def load_spinham_hdf5(
                 atom1 = spinham.get_atom(atom1)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom1}" in exchange bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom1}" in exchange bond {index} not found in the atoms group in file "{filename}".'
                 )
+                raise e
             atom2 = bond["atom-2"][()].decode("utf-8")
             try:
                 atom2 = spinham.get_atom(atom2)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom2}" in exchange bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom2}" in exchange bond {index} not found in the atoms group in file "{filename}".'
                 )
+                raise e
             ijk = tuple(bond["ijk"][:])
             matrix = bond["matrix"][:]
             spinham.add_exchange(atom1, atom2, ijk, matrix=matrix * units_conversion)
@@ -258,8 +260,9 @@ def load_spinham_hdf5(
                 atom = spinham.get_atom(atom)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom}" in on-site bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom}" in on-site bond {index} not found in the atoms group in file "{filename}".'
                 )
+                raise e
             matrix = parameters["matrix"][:]
             spinham.add_on_site(atom, matrix=matrix * units_conversion)
 
-- 
2.43.0


From 0078b54a66f53ca75426816bfd229b2e809e4dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 37/57] fix: unknown units of the cell in hdf5 file are
 rejected

---
 src/magnopy/io/hdf5/internal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index d4072cc..cf49bee 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -123,7 +123,10 @@ def load_spinham_hdf5(
     elif cell.attrs["units"].lower().startswith("angstrom"):
         units_conversion = ANGSTROM / LENGTH
     else:
-        _logger.error(f"Unknown units '{cell['units']}' for cell in file '{filename}'.")
+        _logger.error(
+            f"Unknown units '{cell.attrs['units']}' for cell in file '{filename}'."
+        )
+        raise ValueError(f"Unknown units '{cell.attrs['units']}'.")
 
     spinham.cell *= units_conversion
 
-- 
2.43.0


From a8ddfe5e712aa9f4a8804a66829c774f4273e7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 38/57] fix: hdf5 files are closed on every exit

---
 src/magnopy/io/hdf5/internal.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index cf49bee..32a4e8f 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -70,9 +70,12 @@ def load_spinham_hdf5(
         The SpinHamiltonian object loaded from the file.
     """
 
-    # Open a file and try to detect the desired group
-    file = h5py.File(filename, "r")
+    with h5py.File(filename, "r") as file:
+        return _read_spinham(file, filename, groupname)
 
+
+def _read_spinham(file, filename, groupname):
+    # Try to detect the desired group
     if groupname is None:
         _logger.info(f"Groupname not provided, trying to detect it in file {filename}.")
 
@@ -334,7 +337,11 @@ def dump_spinham_hdf5(
         existing ``filename``.
     """
 
-    file = h5py.File(filename, "a")
+    with h5py.File(filename, "a") as file:
+        _write_spinham(spinham, file, filename, groupname, overwrite)
+
+
+def _write_spinham(spinham, file, filename, groupname, overwrite):
     try:
         root_group = file.create_group(groupname)
     except ValueError:
@@ -419,6 +426,3 @@ def dump_spinham_hdf5(
             "cone-axis", data=spinham.cone_axis, dtype=float
         )
         cone_axis.attrs["units"] = "Absolute"
-
-    if filename is not None:
-        file.close()
-- 
2.43.0


From 415f97dcf74919a6295a3451ef2ca04dc9df2d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 39/57] fix: TB2J files are closed on every exit

---
 src/magnopy/io/txt/tb2j.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/tb2j.py b/src/magnopy/io/txt/tb2j.py
index 85605e6..4f13f19 100644
--- a/src/magnopy/io/txt/tb2j.py
+++ b/src/magnopy/io/txt/tb2j.py
@@ -72,6 +72,11 @@ def load_tb2j(filename, quiet=True, bravais_type=None) -> SpinHamiltonian:
         If ``bravais_type`` is provided and can not be reached.
     """
 
+    with open(filename, "r") as file:
+        return _read_tb2j(file, quiet=quiet, bravais_type=bravais_type)
+
+
+def _read_tb2j(file, quiet, bravais_type):
     major_sep = "=" * 90
     minor_sep = "-" * 88
     garbage = str.maketrans(
@@ -86,7 +91,6 @@ def load_tb2j(filename, quiet=True, bravais_type=None) -> SpinHamiltonian:
     aniso_flag = "J_ani:"
     dmi_flag = "DMI:"
 
-    file = open(filename, "r")
     model = SpinHamiltonian(notation="TB2J")
     line = True
 
-- 
2.43.0


From 08a4e3f934eeff4e7f74346b1bbed7b731109303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 40/57] fix: spin direction in the vampire material file

---
 src/magnopy/io/txt/vampire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index 6d457ad..7f16760 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -140,7 +140,7 @@ def dump_mat(spinham: SpinHamiltonian, filename=None, materials=None, nologo=Fal
             text.append(f"material[{m_i}]:material-name = {atom.name}")
             text.append(f"material[{m_i}]:material-element = {atom.type}")
             text.append(f"material[{m_i}]:atomic-spin-moment={atom.spin} ! muB")
-            if atom._spin_direction is not None:
+            if atom.spin > 0:
                 text.append(
                     f"material[{m_i}]:initial-spin-direction = {atom.spin_direction[0]:.8f},{atom.spin_direction[1]:.8f},{atom.spin_direction[2]:.8f}"
                 )
-- 
2.43.0


From 855616aa8b8580ca9aa2046d8815691bbaff7ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 41/57] fix: export to vampire does not change the Hamiltonian

---
 src/magnopy/io/txt/vampire.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index 7f16760..1bef270 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -203,7 +203,10 @@ def dump_ucf(
     """
     if materials is None:
         materials = [i for i in range(len(spinham.magnetic_atoms))]
-    original_notation = spinham.notation
+    # Notation has to be defined
+    _ = spinham.notation
+    # Work with the copy, so the original Hamiltonian always stays intact
+    spinham = spinham.copy()
     spinham.notation = "vampire"
     if nologo:
         text = []
@@ -245,8 +248,6 @@ def dump_ucf(
         )
         IID += 1
 
-    spinham.notation = original_notation
-
     text = "\n".join(text)
 
     if filename is None:
-- 
2.43.0


From 3b011d38014abca991bb76ad686ce7e39af16b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 42/57] fix: shape of the magnon energies if the
 diagonalization fails

---
 src/magnopy/magnons/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/dispersion.py b/src/magnopy/magnons/dispersion.py
index 0bb75ce..18640e8 100644
--- a/src/magnopy/magnons/dispersion.py
+++ b/src/magnopy/magnons/dispersion.py
@@ -333,7 +333,7 @@ class MagnonDispersion:
                                 G = np.empty((2 * self.N, 2 * self.N), dtype=float)
 
                         else:
-                            omegas = np.zeros(self.N, dtype=float)
+                            omegas = np.zeros(2 * self.N, dtype=float)
                             if return_G:
                                 G = np.zeros((2 * self.N, 2 * self.N), dtype=float)
         omegas[np.abs(omegas) <= 1e-8] = 0
-- 
2.43.0


From 2006a9226f50090074786c55f2ac2744332b65f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 43/57] fix: every antiferro history is written to its own file

---
 src/magnopy/score/minimize_energy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index f83c46f..823d9b0 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -92,10 +92,10 @@ def _minimize_antiferro(energy: Energy, spinham, seedname, output_file):
         output_file.write(
             f"  {'name':>5} {'r1':>11} {'r2':>11} {'r3':>11} {'sx':>11} {'sy':>11} {'sz':>11}\n"
         )
-        for i, spin in enumerate(spin_orientation):
-            pos = spinham.magnetic_atoms[i].position
+        for a_i, spin in enumerate(spin_orientation):
+            pos = spinham.magnetic_atoms[a_i].position
             output_file.write(
-                f"  {spinham.magnetic_atoms[i].name:>5} "
+                f"  {spinham.magnetic_atoms[a_i].name:>5} "
                 f"{pos[0]:11.8f} {pos[1]:11.8f} {pos[2]:11.8f} "
                 f"{spin[0]:11.8f} {spin[1]:11.8f} {spin[2]:11.8f}\n"
             )
-- 
2.43.0


From 4a2e918d58bb2cca090596a4dca447b59341ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 44/57] fix: summary of antiferro energies in the minimization
 script

---
 src/magnopy/score/minimize_energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index 823d9b0..67559ef 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -209,8 +209,8 @@ def manager(
             output_file.write(f"Ferromagnetic energy : {energies[i]:.8f}\n")
         if gs_to_minimize[i] == "antiferro":
             output_file.write(f"Antiferromagnetic energies :\n")
-            for i in range(26):
-                output_file.write(f"  {i+1} {energies[i]:.8f}\n")
+            for e_i, antiferro_energy in enumerate(energies[i]):
+                output_file.write(f"  {e_i+1} {antiferro_energy:.8f}\n")
         if gs_to_minimize[i] == "spiral":
             output_file.write(f"Spiral energy : {energies[i]:.8f}\n")
 
-- 
2.43.0


From e7082ed72bac36d481f93105afb6aa4df6826f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 45/57] fix: default ground state type of the minimization
 script

---
 src/magnopy/score/minimize_energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index 67559ef..74f92a3 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -148,7 +148,7 @@ def _minimize_spiral(energy: Energy, spinham, seedname, output_file):
 def manager(
     spinham,
     spinham_format=None,
-    ground_state_type=None,
+    ground_state_type="all",
     magnetic_field=None,
     output_seedname="minim",
 ):
-- 
2.43.0


From 2e97c910e354b13b4ff3992d28b3f7ff03ad5520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 46/57] fix: main output file of the minimization script is
 closed

---
 src/magnopy/score/minimize_energy.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index 74f92a3..6b38c81 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -153,7 +153,25 @@ def manager(
     output_seedname="minim",
 ):
     # Open main output file
-    output_file = open(f"{output_seedname}-results", "w")
+    with open(f"{output_seedname}-results", "w") as output_file:
+        _minimize_all(
+            output_file,
+            spinham=spinham,
+            spinham_format=spinham_format,
+            ground_state_type=ground_state_type,
+            magnetic_field=magnetic_field,
+            output_seedname=output_seedname,
+        )
+
+
+def _minimize_all(
+    output_file,
+    spinham,
+    spinham_format,
+    ground_state_type,
+    magnetic_field,
+    output_seedname,
+):
     # Write a logo
     output_file.write(logo(date_time=True) + "\n")
 
-- 
2.43.0


From 9ffadaa17b8bf0d125f1a92296775a4d132cff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:14 +0000
Subject: [PATCH 47/57] fix: change of double counting does not scale bonds
 that are their own mirrors

---
 src/magnopy/spinham/hamiltonian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 9c22084..4287664 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -383,6 +383,9 @@ class SpinHamiltonian(Crystal):
             # Scale exchange parameters
             if factor != 1:
                 for atom1, atom2, ijk in self._exchange:
+                    # Bond that is its own mirror is counted once in both cases
+                    if atom1 == atom2 and tuple(ijk) == (0, 0, 0):
+                        continue
                     self[atom1, atom2, ijk].matrix *= factor
 
         # Add missed mirror bonds if necessary
-- 
2.43.0


From de50f7a5165f0a9778afebf1e54a2c5e95dad7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:22 +0000
Subject: [PATCH 48/57] fix: isotropic part of the parameter accepts only a
 number

---
 src/magnopy/spinham/parameter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/magnopy/spinham/parameter.py b/src/magnopy/spinham/parameter.py
index f2a4863..14b6ebe 100644
--- a/src/magnopy/spinham/parameter.py
+++ b/src/magnopy/spinham/parameter.py
@@ -231,6 +231,10 @@ class MatrixParameter:
 
     @iso.setter
     def iso(self, new_iso):
+        try:
+            new_iso = float(new_iso)
+        except:
+            raise ValueError(f"New iso is not a number: {new_iso}")
         new_iso = new_iso - self.iso
         self.matrix = self.matrix + (new_iso) * np.identity(3, dtype=float)
 
-- 
2.43.0


From 6025b2e5bb07957fb619f5143c78fc2ef532aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:27 +0000
Subject: [PATCH 49/57] fix: scalar initial guess or spin orientation is
 reported as a value error

---
 src/magnopy/spinham/energy.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 723f3d1..149d2a4 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -58,10 +58,10 @@ def _starting_ferro(n_spins, initial_guess=None):
         except:
             raise ValueError(f"spin_orientation is not array-like: {initial_guess}")
 
-        if spin_orientation.shape[-1] != 3:
+        if spin_orientation.shape[-1:] != (3,):
             raise ValueError(
                 f"spin_orientation has to have the last dimension of "
-                f"size 3, got {spin_orientation.shape[-1]}"
+                f"size 3, got shape {spin_orientation.shape}"
             )
 
         # Make the input array have (I,3) shape for I = 1
@@ -1052,10 +1052,10 @@ class Energy:
         except:
             raise ValueError(f"spin_orientation is not array-like: {spin_orientation}")
 
-        if spin_orientation.shape[-1] != 3:
+        if spin_orientation.shape[-1:] != (3,):
             raise ValueError(
                 f"spin_orientation has to have the last dimension of "
-                f"size 3, got {spin_orientation.shape[-1]}"
+                f"size 3, got shape {spin_orientation.shape}"
             )
 
         # Make the input array have (I,3) shape for I = 1
@@ -1130,10 +1130,10 @@ class Energy:
         except:
             raise ValueError(f"spin_orientation is not array-like: {spin_orientation}")
 
-        if spin_orientation.shape[-1] != 3:
+        if spin_orientation.shape[-1:] != (3,):
             raise ValueError(
                 f"spin_orientation has to have the last dimension of "
-                f"size 3, got {spin_orientation.shape[-1]}"
+                f"size 3, got shape {spin_orientation.shape}"
             )
 
         # Check that the input is correct (cone_axis)
@@ -1246,10 +1246,10 @@ class Energy:
         except:
             raise ValueError(f"spin_orientation is not array-like: {spin_orientation}")
 
-        if spin_orientation.shape[-1] != 3:
+        if spin_orientation.shape[-1:] != (3,):
             raise ValueError(
                 f"spin_orientation has to have the last dimension of "
-                f"size 3, got {spin_orientation.shape[-1]}"
+                f"size 3, got shape {spin_orientation.shape}"
             )
 
         # Check that the input is correct (cone_axis)
-- 
2.43.0


From f30eb9f427221977137f43b7e1266353b423ab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:05 +0000
Subject: [PATCH 50/57] fix: history of the optimisation is completed when the
 iteration limit is reached

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 149d2a4..6e5e7c2 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1576,7 +1576,7 @@ class Energy:
                     f"Torques: {torque_targets}, "
                     f"Energy difference: {energy_diff:.5e}."
                 )
-                return _unpack(x)
+                break
 
             # Compute gradient and torques
             _grad(*_unpack(x), gradient_vector=gradient_vector, torques=torques)
-- 
2.43.0


From 897471f42d2605badd24a66cafc9464d290fb566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:04 +0000
Subject: [PATCH 51/57] fix: degenerate magnon modes are diagonalised with
 orthogonal eigenvectors

---
 src/magnopy/magnons/diagonalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/diagonalization.py b/src/magnopy/magnons/diagonalization.py
index 5d16eff..1e49311 100644
--- a/src/magnopy/magnons/diagonalization.py
+++ b/src/magnopy/magnons/diagonalization.py
@@ -129,7 +129,7 @@ def solve_via_colpa(D):
     except LinAlgError:
         raise ColpaFailed
 
-    L, U = np.linalg.eig(K @ g @ np.conjugate(K).T)
+    L, U = np.linalg.eigh(K @ g @ np.conjugate(K).T)
 
     # Sort with respect to L, in descending order
     U = np.concatenate((L[:, None], U.T), axis=1).T
-- 
2.43.0


From 45827d78cf1459d17d74008979f82c6c64a6a2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:18 +0000
Subject: [PATCH 52/57] fix: negative semidefinite magnon matrices are shifted
 towards definiteness

---
 src/magnopy/magnons/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/dispersion.py b/src/magnopy/magnons/dispersion.py
index 18640e8..d26bef7 100644
--- a/src/magnopy/magnons/dispersion.py
+++ b/src/magnopy/magnons/dispersion.py
@@ -321,7 +321,7 @@ class MagnonDispersion:
                     # Try to solve for negative semidefinite matrix
                     try:
                         omegas, G = solve_via_colpa(
-                            -h - np.diag(1e-8 * np.ones(h.shape[0]))
+                            -h + np.diag(1e-8 * np.ones(h.shape[0]))
                         )
                         omegas *= -1
                         G *= -1
-- 
2.43.0


From 37d23e9a8ae7b5e5adda42d5264de408a933d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:54 +0000
Subject: [PATCH 53/57] fix: energy of a Hamiltonian does not require the
 notation of absent terms

---
 src/magnopy/spinham/energy.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 6e5e7c2..b7823d8 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -549,9 +549,19 @@ class Energy:
     def __init__(self, spinham: SpinHamiltonian):
         # Work with the copy, so the original Hamiltonian stays intact and
         # later changes of it do not affect the energy
-        _, _, exchange_factor, on_site_factor = spinham.notation
         spinham = spinham.copy()
 
+        # Notation of the terms that are not in the Hamiltonian might be undefined
+        if len(spinham.on_site) == 0 and spinham._on_site_factor is None:
+            spinham.on_site_factor = 1
+        if len(spinham.exchange) == 0:
+            if spinham._double_counting is None:
+                spinham.double_counting = True
+            if spinham._exchange_factor is None:
+                spinham.exchange_factor = 1
+
+        _, _, exchange_factor, on_site_factor = spinham.notation
+
         # Force the notation that is expected by the energy functions
         spinham.notation = (True, False, exchange_factor, on_site_factor)
 
-- 
2.43.0


From 580f9502b133752c206940ef86b373a533c86ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 54/57] fix: standardization of the cell transforms cell
 vectors of the bonds and the spiral vector

---
 src/magnopy/spinham/hamiltonian.py | 37 ++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 4287664..d4a03b9 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -974,6 +974,43 @@ class SpinHamiltonian(Crystal):
         # Remove an atom from the crystal
         super().remove_atom(atom)
 
+    def standardize(self):
+        R"""
+        Standardize cell with respect to the Bravais lattice type.
+
+        Atoms, bonds and spiral vector stay the same in the absolute coordinates, their
+        relative coordinates are recalculated.
+
+        See Also
+        --------
+        wulfric.Crystal.standardize
+        """
+
+        # Get S matrix before the cell is changed
+        S = self.S_matrix
+
+        exchange = {}
+        for atom1, atom2, ijk in self._exchange:
+            new_ijk = S @ np.array(ijk)
+            if not np.allclose(new_ijk, np.around(new_ijk)):
+                raise ValueError(
+                    f"Bond ({atom1.fullname}, {atom2.fullname}, {ijk}) does not connect "
+                    + "two unit cells of the standardized lattice."
+                )
+            new_ijk = tuple(int(x) for x in np.around(new_ijk))
+            exchange[(atom1, atom2, new_ijk)] = self._exchange[(atom1, atom2, ijk)]
+
+        super().standardize()
+
+        self._exchange = exchange
+
+        if self._spiral_vector is not None:
+            self._spiral_vector = np.linalg.inv(S).T @ self._spiral_vector
+
+        # Which of the two mirrored bonds is kept depends on the new cell vectors
+        if self._double_counting is not None and not self._double_counting:
+            self._ensure_no_double_counting()
+
     @property
     def crystal(self) -> Crystal:
         r"""
-- 
2.43.0


From a932fe33c15a3169c40a28c752728dabc1768f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 55/57] fix: documented option --magnetic-field is accepted

---
 docs/source/user-guide/scripts/minimize-energy.rst | 2 +-
 src/magnopy/score/minimize_energy.py               | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/docs/source/user-guide/scripts/minimize-energy.rst b/docs/source/user-guide/scripts/minimize-energy.rst
index 040964a..c48338f 100644
--- a/docs/source/user-guide/scripts/minimize-energy.rst
+++ b/docs/source/user-guide/scripts/minimize-energy.rst
@@ -77,7 +77,7 @@ Hamiltonian from :ref:`magnopy-minimize-energy_spinham`. Three numbers: ``H_x H_
 
 .. _magnopy-minimize-energy_seedname:
 
--os, --output_seedname
+-os, --output-seedname
 ----------------------
 Seedname that is used for various output files.
 
diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index 6b38c81..7d7e589 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -262,6 +262,7 @@ def create_parser():
     )
     parser.add_argument(
         "-mf",
+        "--magnetic-field",
         "--magnetic_field",
         default=None,
         type=float,
-- 
2.43.0


From 7c96330af80069c7cddd5b2190a0079d0975c633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:47 +0000
Subject: [PATCH 56/57] fix: compute the L-BFGS search direction from the
 stored history

The backward loop of the two-loop recursion never ran (range without the
negative step), the differences of the gradients were stored with the wrong
sign (the gradient vector points along the descent), so the memory was reset
at every convex step, and the initial scaling used the norm of y instead of
its square.
---
 src/magnopy/spinham/energy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index b7823d8..bf207cc 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1713,7 +1713,8 @@ class Energy:
             search_direction = gradient_vector
         else:
             self._d_vec[n] = previous_lambda * previous_search_direction
-            self._y_vec[n] = gradient_vector - previous_gradient_vector
+            # Note: gradient vector points along the descent of the energy
+            self._y_vec[n] = previous_gradient_vector - gradient_vector
             self._rho[n] = 1 / (self._d_vec[n] @ self._y_vec[n])
 
             if self._rho[n] < 0:
@@ -1726,11 +1727,11 @@ class Energy:
 
             q = gradient_vector.copy()
 
-            for l in range(self._m - 1, -1):
+            for l in range(self._m - 1, -1, -1):
                 j = (l + n + 1) % self._m
                 self._gamma[j] = self._rho[j] * (self._d_vec[j] @ q)
                 q = q - self._gamma[j] * self._y_vec[j]
-            search_direction = q / self._rho[n] / (np.linalg.norm(self._y_vec[n]))
+            search_direction = q / self._rho[n] / (np.linalg.norm(self._y_vec[n]) ** 2)
             for l in range(0, self._m):
                 if k < self._m:
                     j = l
-- 
2.43.0


From a9f9b4022f835931a94be760bf86a076cb102c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:56 +0000
Subject: [PATCH 57/57] fix: the line search accepts only steps that lower the
 energy

The gradient vector points along the descent, so the sufficient decrease
condition had the wrong sign and accepted steps that raise the energy.
---
 src/magnopy/spinham/energy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index bf207cc..abff339 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1758,7 +1758,8 @@ class Energy:
         nabla = _grad(*_unpack(x))[0]
         i = 0
         tmp = [[], [], []]
-        while energy(*_unpack(x_new)) > fx + (
+        # Note: gradient vector points along the descent of the energy
+        while energy(*_unpack(x_new)) > fx - (
             self._wolfe_c1 * step * nabla.T @ search_direction
         ) or abs(nabla_new.T @ search_direction) > abs(
             self._wolfe_c2 * nabla.T @ search_direction
@@ -1775,7 +1776,7 @@ class Energy:
             # )
             tmp[0].append(step)
             tmp[1].append(energy(*_unpack(x_new)))
-            tmp[2].append(fx + step * self._wolfe_c1 * nabla.T @ search_direction)
+            tmp[2].append(fx - step * self._wolfe_c1 * nabla.T @ search_direction)
             if i > self._wolfe_iter_max:
                 print("\n\n")
                 # TODO go into the details and deal with the failing cases
-- 
2.43.0

