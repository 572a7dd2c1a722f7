From d0019f5427e931184f9dba96f403452fda7c37e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:44 +0000
Subject: [PATCH 01/80] fix: nm_rescale.b2tob1 applied the open-path expansion
 to every atom

The else branch (per-bead scalars) was attached to the for loop instead of the
shape test, so with open paths and contraction all atoms used the open matrix.
---
 ipi/utils/nmtransform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/nmtransform.py b/ipi/utils/nmtransform.py
index f826a87..91324d8 100644
--- a/ipi/utils/nmtransform.py
+++ b/ipi/utils/nmtransform.py
@@ -323,8 +323,8 @@ class nm_rescale(object):
                         q_scal[:, 3 * io + 2] = np.tensordot(
                             self._o_b2tob1, q[:, 3 * io + 2], axes=(1, 0)
                         )
-                    else:
-                        q_scal = np.tensordot(self._o_b2tob1, q, axes=(1, 0))
+                else:
+                    q_scal = np.tensordot(self._o_b2tob1, q, axes=(1, 0))
         return q_scal
 
 
-- 
2.43.0


From 8352aca0c503c8d330ed53cbe763cc997fcf7fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:44 +0000
Subject: [PATCH 02/80] fix: open-path contraction kept the stiffest modes
 instead of the softest

mk_o_rs_matrix reused the mode selection of the closed ring, whose degenerate
pairs sit at both ends of the list; open-path modes are sorted by frequency.
---
 ipi/utils/nmtransform.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ipi/utils/nmtransform.py b/ipi/utils/nmtransform.py
index 91324d8..031682d 100644
--- a/ipi/utils/nmtransform.py
+++ b/ipi/utils/nmtransform.py
@@ -123,15 +123,9 @@ def mk_o_rs_matrix(nb1, nb2):
 
         # builds the "reduction" matrix that picks the normal modes we want to keep
         b1_b2 = np.zeros((nb2, nb1), float)
-        b1_b2[0, 0] = 1.0
-        for i in range(1, nb2 // 2 + 1):
+        # (open-path modes are non-degenerate and sorted by increasing frequency)
+        for i in range(nb2):
             b1_b2[i, i] = 1.0
-            b1_b2[nb2 - i, nb1 - i] = 1.0
-        if nb2 % 2 == 0:
-            # if we are contracting down to an even number of beads, then we have to
-            # pick just one of the last degenerate modes to match onto the single
-            # stiffest mode in the new path
-            b1_b2[nb2 // 2, nb1 - nb2 // 2] = 0.0
 
         rs_b1_b2 = np.dot(nm_b2, np.dot(b1_b2, b1_nm))
         return rs_b1_b2 * np.sqrt(float(nb2) / float(nb1))
-- 
2.43.0


From 5c96c9d7c60fb2ef577fdf4f80ecfea4c113423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:20 +0000
Subject: [PATCH 03/80] fix: make Ensemble.hweights a depend property

Assigning hweights (as ensemble_swap does in replica exchange) replaced a plain
attribute without tainting anything, so the Hamiltonian scaling kept its old value.
---
 ipi/engine/ensembles.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/ensembles.py b/ipi/engine/ensembles.py
index 20f067e..c2cbe2a 100755
--- a/ipi/engine/ensembles.py
+++ b/ipi/engine/ensembles.py
@@ -133,7 +133,7 @@ class Ensemble:
         # weights of the Hamiltonian scaling
         if hweights is None:
             hweights = np.ones(0)
-        self.hweights = np.asarray(hweights)
+        self._hweights = depend_array(name="hweights", value=np.asarray(hweights))
 
         # Internal time counter
         self._time = depend_value(name="time", value=time)
@@ -199,9 +199,10 @@ class Ensemble:
 
         # add Hamiltonian REM bias components
         if len(self.hweights) == 0:
-            self.hweights = np.ones(len(self.forces.mforces))
+            self._hweights = depend_array(
+                name="hweights", value=np.ones(len(self.forces.mforces))
+            )
 
-        self._hweights = depend_array(name="hweights", value=np.asarray(self.hweights))
         self._has_bias = depend_value(
             name="has_bias",
             func=lambda: (
@@ -290,6 +291,7 @@ dproperties(
         "pext",
         "eens",
         "bweights",
+        "hweights",
         "time",
         "econs",
         "has_bias",
-- 
2.43.0


From 7a501e0768acb25947d75ce058023fa06a1c06c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:20 +0000
Subject: [PATCH 04/80] fix: apply the Hamiltonian-weight bias in the equations
 of motion

has_bias was true only with explicit bias components and unit Hamiltonian weights,
so scaled force components entered the conserved quantity but never the dynamics.
---
 ipi/engine/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/ensembles.py b/ipi/engine/ensembles.py
index c2cbe2a..6ae5b2e 100755
--- a/ipi/engine/ensembles.py
+++ b/ipi/engine/ensembles.py
@@ -206,7 +206,7 @@ class Ensemble:
         self._has_bias = depend_value(
             name="has_bias",
             func=lambda: (
-                len(self.bcomp) > 0 and np.mean((self.hweights - 1) ** 2) < 1e-20
+                len(self.bcomp) > 0 or np.mean((self.hweights - 1) ** 2) > 1e-20
             ),
             dependencies=[self._hweights],
         )
-- 
2.43.0


From ca4a2fdb1b219014c4b88f27183cd0e9c9f2d300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:53 +0000
Subject: [PATCH 05/80] fix: threaded gaussian fill wrote to a temporary copy
 instead of the output array

---
 ipi/utils/prng.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/prng.py b/ipi/utils/prng.py
index 890907f..1a023b5 100644
--- a/ipi/utils/prng.py
+++ b/ipi/utils/prng.py
@@ -188,7 +188,7 @@ class Random(object):
             out: The array to be filled.
         """
 
-        out_flat = out.flatten()
+        out_flat = out.reshape(-1)  # a view, so that `out` itself gets filled
         step_size = np.ceil(len(out_flat) / self.n_threads).astype(int)
         if step_size < _MIN_STEP_THREADED:
             # falls back to serial if the vector is too small
-- 
2.43.0


From 1019f415027d222e060bc34b7539a19dae44fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:53 +0000
Subject: [PATCH 06/80] fix: MultiThermo did not tell its thermostats about the
 fixed centre of mass

---
 ipi/engine/thermostats.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/thermostats.py b/ipi/engine/thermostats.py
index abba0d8..e0f9d73 100644
--- a/ipi/engine/thermostats.py
+++ b/ipi/engine/thermostats.py
@@ -1330,7 +1330,15 @@ class MultiThermo(Thermostat):
 
         # just binds all the sub-thermostats
         for t in self.tlist:
-            t.bind(beads=beads, atoms=atoms, pm=pm, nm=nm, prng=prng, fixdof=fixdof)
+            t.bind(
+                beads=beads,
+                atoms=atoms,
+                pm=pm,
+                nm=nm,
+                prng=prng,
+                fixdof=fixdof,
+                fixcom=fixcom,
+            )
             self._ethermo.add_dependency(t._ethermo)
 
         self._ethermo._func = self.get_ethermo
-- 
2.43.0


From c41a91e81c40c86d61051157ca7a168bc07788b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:53 +0000
Subject: [PATCH 07/80] fix: the global centroid thermostat of nm_gle_g ignored
 the constrained degrees of freedom

---
 ipi/engine/thermostats.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/thermostats.py b/ipi/engine/thermostats.py
index e0f9d73..d073d38 100644
--- a/ipi/engine/thermostats.py
+++ b/ipi/engine/thermostats.py
@@ -1044,8 +1044,14 @@ class ThermoNMGLEG(ThermoNMGLE):
 
         t = ThermoSVR(self.temp, self.dt, self.tau)
 
+        # the centroid sees one bead's worth of fixed-atom DOFs, plus the
+        # COM constraint (same as in ThermoPILE_G)
+        if fixdof is not None:
+            ncom = 3 if fixcom else 0
+            fixdof = (fixdof - ncom) // nm.nbeads + ncom
+
         t.bind(
-            pm=(nm.pnm[0, :], nm.dynm3[0, :]), prng=self.prng
+            pm=(nm.pnm[0, :], nm.dynm3[0, :]), prng=self.prng, fixdof=fixdof
         )  # bind global thermostat to centroid
 
         # pipes temp and dt
-- 
2.43.0


From 2bbf518bb200aa2ec39962f8391afcb830211b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:23 +0000
Subject: [PATCH 08/80] fix: anisotropic barostats drifted the centroid wrongly
 when the cell velocity had repeated eigenvalues

---
 ipi/engine/barostats.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 328db00..b65b10f 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -1109,10 +1109,11 @@ class BaroRGB(Barostat):
         v = self.p / self.m[0]
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
-        # check eigen vector exists
-        if np.count_nonzero(v.diagonal()) == 0:
+        # check eigen vector exists: v is upper triangular, so its eigenvalues are
+        # the diagonal entries and it may be defective when they are degenerate
+        if len(np.unique(v.diagonal())) < 3:
             # compute sinhv/v by directly taylor, if eigen vector not exists
-            sinh = mat_taylor(v * halfdt, function="sinhx/x")
+            sinh = halfdt * mat_taylor(v * halfdt, function="sinhx/x")
         else:
             eigvals, eigvecs = np.linalg.eig(v)
             ieigvecs = np.linalg.inv(eigvecs)
@@ -1399,10 +1400,11 @@ class BaroMTK(Barostat):
         v = self.p / self.m[0]
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
-        # check eigen vector exists
-        if np.count_nonzero(v.diagonal()) == 0:
+        # check eigen vector exists: v is upper triangular, so its eigenvalues are
+        # the diagonal entries and it may be defective when they are degenerate
+        if len(np.unique(v.diagonal())) < 3:
             # compute sinhv/v by directly taylor, if eigen vector not exists
-            sinh = mat_taylor(v * halfdt, function="sinhx/x")
+            sinh = halfdt * mat_taylor(v * halfdt, function="sinhx/x")
         else:
             eigvals, eigvecs = np.linalg.eig(v)
             ieigvecs = np.linalg.inv(eigvecs)
-- 
2.43.0


From ef3ecc57ecd20adf005f01d35d09721435b7a613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:20 +0000
Subject: [PATCH 09/80] fix: barostats left the bias force out of the kinetic
 stress integrated along the kick

---
 ipi/engine/barostats.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index b65b10f..03e3979 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -597,6 +597,8 @@ class BaroBZP(Barostat):
 
             pc = dstrip(self.beads.pc)
             fc = np.sum(dstrip(self.forces.mts_forces[level].f), axis=0) / nbeads
+            if level == 0 and self.bias is not None:
+                fc += np.sum(dstrip(self.bias.f), axis=0) / nbeads
             fc_m = fc / dstrip(self.beads.m3)[0]
 
             dt2 = dt * dt * self.beads.nbeads
@@ -812,6 +814,8 @@ class BaroSCBZP(Barostat):
                 )
                 / self.beads.nbeads
             )
+            if level == 0 and self.bias is not None:
+                fc += np.sum(dstrip(self.bias.f), axis=0) / self.beads.nbeads
             m = dstrip(self.beads.m3)[0]
 
             self.p += (
@@ -1090,6 +1094,11 @@ class BaroRGB(Barostat):
                 )
                 / self.beads.nbeads
             )
+            if level == 0 and self.bias is not None:
+                fc += (
+                    np.sum(dstrip(self.bias.f), axis=0).reshape(self.beads.natoms, 3)
+                    / self.beads.nbeads
+                )
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
 
             self.p += (
@@ -1377,6 +1386,11 @@ class BaroMTK(Barostat):
                 )
                 / self.beads.nbeads
             )
+            if level == 0 and self.bias is not None:
+                fc += (
+                    np.sum(dstrip(self.bias.f), axis=0).reshape(self.beads.natoms, 3)
+                    / self.beads.nbeads
+                )
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
 
             self.p += (
-- 
2.43.0


From 0ee2b8dbeace1628d133ab340da6c52c8341fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:08 +0000
Subject: [PATCH 10/80] fix: anisotropic barostats left out off-diagonal
 kinetic stress and transposed the centroid virial

---
 ipi/engine/barostats.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 03e3979..10320bd 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -310,7 +310,7 @@ class Barostat:
         qqc = (dstrip(beads.q) - dstrip(beads.qc)).reshape(-1, 3)
         fall = fall.reshape(-1, 3)
 
-        kst = -noddot(qqc.T, fall)
+        kst = -noddot(fall.T, qqc)
         # kst = np.zeros((3,3))
         # kst[0] = -noddot(qqc[:,0], fall)
         # kst[1,1:] = -noddot(qqc[:,1], fall[:,1:])
@@ -1101,11 +1101,19 @@ class BaroRGB(Barostat):
                 )
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
 
+            fcpc = np.dot(fcTonm, pc)
             self.p += (
-                np.triu(dt2 * np.dot(fcTonm, pc) + dt3 * np.dot(fcTonm, fc))
+                np.triu(dt2 * 0.5 * (fcpc + fcpc.T) + dt3 * np.dot(fcTonm, fc))
                 * self.beads.nbeads
             )
 
+            # off-diagonal kinetic stress, that balances the work done by the cell
+            # deformation on the centroid momenta (no need to kick fixed components)
+            pcTonm = (pc / dstrip(self.beads.m)[:, np.newaxis]).T
+            self.p += (
+                dt * self.beads.nbeads * np.triu(np.dot(pcTonm, pc), 1) * self.hmask
+            )
+
         # now apply the mask (and accumulate the associated change in conserved quantity)
         # we use the thermostat conserved quantity accumulator, so we don't need to create a new one
         self.thermostat.ethermo += self.kin
@@ -1393,11 +1401,19 @@ class BaroMTK(Barostat):
                 )
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
 
+            fcpc = np.dot(fcTonm, pc)
             self.p += (
-                np.triu(dt2 * np.dot(fcTonm, pc) + dt3 * np.dot(fcTonm, fc))
+                np.triu(dt2 * 0.5 * (fcpc + fcpc.T) + dt3 * np.dot(fcTonm, fc))
                 * self.beads.nbeads
             )
 
+            # off-diagonal kinetic stress, that balances the work done by the cell
+            # deformation on the centroid momenta (no need to kick fixed components)
+            pcTonm = (pc / dstrip(self.beads.m)[:, np.newaxis]).T
+            self.p += (
+                dt * self.beads.nbeads * np.triu(np.dot(pcTonm, pc), 1) * self.hmask
+            )
+
         # now apply the mask (and accumulate the associated change in conserved quantity)
         # we use the thermostat conserved quantity accumulator, so we don't need to create a new one
         self.thermostat.ethermo += self.kin
-- 
2.43.0


From 54f5e02aca9f5e64645ed5ff731e240b89790e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:08 +0000
Subject: [PATCH 11/80] fix: cell Jacobian of the anisotropic barostats ignored
 the fixed cell components

---
 ipi/engine/barostats.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 10320bd..df5cbe0 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -1059,7 +1059,10 @@ class BaroRGB(Barostat):
     def get_cell_jacobian(self):
         """Calculates the energy term that accounts for the size of the box."""
 
-        cj = np.sum([(3 - i) * np.log(self.cell.h[i][i]) for i in range(3)])
+        # each diagonal element counts the free components in its row, consistent with
+        # the force in pstep. rows with a fixed diagonal only contribute a constant
+        hl = np.where(self.hmask.diagonal() != 0, self.L.diagonal(), [3, 2, 1])
+        cj = np.sum([hl[i] * np.log(self.cell.h[i][i]) for i in range(3)])
         return -1.0 * Constants.kb * self.temp * cj
 
     def get_ebaro(self):
@@ -1357,7 +1360,10 @@ class BaroMTK(Barostat):
     def get_cell_jacobian(self):
         """Calculates the energy term that accounts for the size of the box."""
 
-        cj = np.sum([(3 - i) * np.log(self.cell.h[i][i]) for i in range(3)])
+        # each diagonal element counts the free components in its row, consistent with
+        # the force in pstep. rows with a fixed diagonal only contribute a constant
+        hl = np.where(self.hmask.diagonal() != 0, self.L.diagonal(), [3, 2, 1])
+        cj = np.sum([hl[i] * np.log(self.cell.h[i][i]) for i in range(3)])
         return -1.0 * Constants.kb * self.temp * cj
 
     def get_ebaro(self):
-- 
2.43.0


From 578a3b26e18407a3329d7aae34f8692874620780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:30 +0000
Subject: [PATCH 12/80] fix: depend arrays: stale values through held handles,
 refused writes altered the cached value, out= did not propagate

---
 ipi/utils/depend.py | 65 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 53 insertions(+), 12 deletions(-)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index bae8afe..fd9d3ca 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -107,10 +107,9 @@ class depend_base(object):
         for item in dependencies:
             item.add_dependant(self, tainted)
 
-        for item in dependants:
+        for i, item in enumerate(dependants):
             if not isinstance(item, weakref.ref):
-                dependants.remove(item)
-                dependants.append(weakref.ref(item))
+                dependants[i] = weakref.ref(item)
         self._dependants = dependants
 
         # Primitive objects start untainted; computed objects inherit the
@@ -206,19 +205,22 @@ class depend_base(object):
             # warning(self._name + " probably shouldn't be tainted (value)", verbosity.low)
             pass
 
-    def update_man(self):
-        """Post-manual-write hook: propagate synchro state or reject writes
-        to auto-computed quantities."""
-        if self._synchro is not None:
-            self._taint_synchro()
-            # info(f" @depend: Set value for {self._name} (manual)", verbosity.debug)
-        elif self._func is not None:
+    def _check_man(self):
+        """Pre-manual-write hook: rejects writes to auto-computed quantities,
+        before they can alter the cached value."""
+        if self._func is not None and self._synchro is None:
             raise NameError(
                 "Cannot set manually the value of the automatically-computed property <"
                 + self._name
                 + ">"
             )
 
+    def update_man(self):
+        """Post-manual-write hook: propagate synchro state."""
+        self._check_man()
+        self._taint_synchro()
+        # info(f" @depend: Set value for {self._name} (manual)", verbosity.debug)
+
     def set(self, value, manual=False):
         raise ValueError("Undefined set function for base depend class")
 
@@ -261,6 +263,8 @@ class depend_value(depend_base):
 
     def set(self, value, manual=True):
         with self._threadlock:
+            if manual:
+                self._check_man()
             self._value = value
             if manual:
                 self.update_man()
@@ -351,11 +355,21 @@ class depend_array(depend_base):
                 unwrapped.append(x._value)
             else:
                 unwrapped.append(x)
+        outs = [o for o in kwargs.get("out", ()) if isinstance(o, depend_array)]
+        for o in outs:
+            if o._tainted[0]:
+                o._refresh()
+            o._check_man()
         if "out" in kwargs:
             kwargs["out"] = tuple(
                 o._value if isinstance(o, depend_array) else o for o in kwargs["out"]
             )
-        return getattr(ufunc, method)(*unwrapped, **kwargs)
+        result = getattr(ufunc, method)(*unwrapped, **kwargs)
+        for o in outs:
+            # the output was overwritten: same propagation as an assignment
+            o.update_man()
+            o.taint(taintme=False)
+        return result
 
     # ------------------------------------------------------------------
     # Propagate common array attributes to allow direct access without unwrapping.
@@ -379,10 +393,14 @@ class depend_array(depend_base):
 
     @property
     def T(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.T
 
     @property
     def flat(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.flat
 
     @property
@@ -395,10 +413,14 @@ class depend_array(depend_base):
 
     @property
     def real(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.real
 
     @property
     def imag(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.imag
 
     # ------------------------------------------------------------------
@@ -414,6 +436,8 @@ class depend_array(depend_base):
             value = object.__getattribute__(self, "_value")
         except AttributeError:
             raise AttributeError(name)
+        if self._tainted[0]:
+            self._refresh()
         return getattr(value, name)
 
     # ------------------------------------------------------------------
@@ -441,6 +465,8 @@ class depend_array(depend_base):
         Accepts both `da.reshape((2, 3))` and `da.reshape(2, 3)`, matching
         numpy's signature.
         """
+        if self._tainted[0]:
+            self._refresh()
         if len(shape) == 1:
             shape = shape[0]
         return depend_array(
@@ -486,6 +512,10 @@ class depend_array(depend_base):
 
     def __setitem__(self, index, value):
         with self._threadlock:
+            # The elements that are not written must hold their current value.
+            if self._tainted[0]:
+                self._refresh()
+            self._check_man()
             self._value[index] = value
             # Skip update_man() on plain leaf-storage arrays (no synchro,
             # no computed func) — there is nothing for it to do.
@@ -502,6 +532,11 @@ class depend_array(depend_base):
         silently desync any existing slice's `_value` from the parent's.
         """
         with self._threadlock:
+            if manual:
+                # A slice covers only part of the parent: the rest must be current.
+                if self._parent is not None and self._tainted[0]:
+                    self._refresh()
+                self._check_man()
             self._value[...] = value
             if manual and (self._synchro is not None or self._func is not None):
                 self.update_man()
@@ -512,6 +547,13 @@ class depend_array(depend_base):
             self._refresh()
         return self
 
+    def _check_man(self):
+        """Slice-view aware: a view of a computed array is computed as well."""
+        if self._parent is not None:
+            self._parent._check_man()
+        else:
+            super()._check_man()
+
     def _refresh(self):
         """Slice-view aware refresh.
 
@@ -698,7 +740,6 @@ def dcopy(dfrom, dto):
         see dpipe.
     """
     dto._dependants = dfrom._dependants
-    dto._synchro = dfrom._synchro
     dto.add_synchro(dfrom._synchro)
     dto._tainted = dfrom._tainted
     dto._func = dfrom._func
-- 
2.43.0


From b9c8c15565e290c5e82700ccdb59f639765fff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:48 +0000
Subject: [PATCH 13/80] fix: socket headers arriving in pieces, and
 disconnection while waiting for forces

---
 ipi/interfaces/sockets.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index b3ff674..597c0d5 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -134,6 +134,7 @@ class DriverSocket(socket.socket):
         self.settimeout(sock.gettimeout())
 
         self._buf = np.zeros(0, np.byte)
+        self._msg = b""  # the part of an incoming header that has already arrived
         if socket:
             self.peername = self.getpeername()
         else:
@@ -152,8 +153,19 @@ class DriverSocket(socket.socket):
 
         Args:
            l: Length of the accepted message. Defaults to HDRLEN.
+
+        Returns:
+           The message, that is shorter than requested only if the connection
+           was closed by the other side. If the socket times out, what has
+           arrived so far is kept for the next call.
         """
-        return self.recv(length)
+        while len(self._msg) < length:
+            part = self.recv(length - len(self._msg))
+            if len(part) == 0:
+                break
+            self._msg += part
+        msg, self._msg = self._msg, b""
+        return msg
 
     def recvall(self, dest):
         """Gets the potential energy, force and virial from the driver.
@@ -453,7 +465,7 @@ class Driver(DriverSocket):
                     " @SOCKET:   Unexpected getforce reply: %s" % (reply),
                     verbosity.low,
                 )
-            if reply == "":
+            if len(reply) < HDRLEN:
                 raise Disconnected()
 
     def _recv_force_data(self):
-- 
2.43.0


From ad0640a0b9b3c65a7ec996253a72898ea63f0765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:48 +0000
Subject: [PATCH 14/80] fix: the length of the init string is its length in
 bytes

---
 ipi/interfaces/sockets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 597c0d5..4fb0576 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -387,12 +387,13 @@ class Driver(DriverSocket):
                     # it checks if there are several parameters just in case
                     sep = "," if pars.strip() else ""
                     pars = pars + "%s batch_size:%d" % (sep, self.batch_size)
+                pars = pars.encode()
                 # combines all messages in one to reduce latency
                 self.sendall(
                     MESSAGE["init"]
                     + np.int32(rid)
                     + np.int32(len(pars))
-                    + pars.encode()
+                    + pars
                 )
             except:
                 self.get_status()
-- 
2.43.0


From 34b5fee3eb318fe50e30bc096aa9125e2448e8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:48 +0000
Subject: [PATCH 15/80] fix: report the status in InvalidStatus errors instead
 of a TypeError

---
 ipi/interfaces/sockets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 4fb0576..974dd18 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -399,7 +399,7 @@ class Driver(DriverSocket):
                 self.get_status()
                 return
         else:
-            raise InvalidStatus("Status in init was " + self.status)
+            raise InvalidStatus("Status in init was " + str(self.status))
 
     def sendpos(self, pos, h_ih):
         """Sends the position and cell data to the driver.
@@ -438,7 +438,7 @@ class Driver(DriverSocket):
                 )
                 raise exc
         else:
-            raise InvalidStatus("Status in sendpos was " + self.status)
+            raise InvalidStatus("Status in sendpos was " + str(self.status))
 
     def _recv_forceready(self):
         """Receives the FORCEREADY header after GETFORCE has been sent.
@@ -1034,7 +1034,7 @@ class SHMDriver(Driver):
     def sendpos(self, pos, h_ih):
         global TIMEOUT
         if not (self.status & Status.Ready):
-            raise InvalidStatus("Status in sendpos was " + self.status)
+            raise InvalidStatus("Status in sendpos was " + str(self.status))
         try:
             self.sendall(self._fill_shm([(pos, h_ih)]))
             self.status = Status.Up | Status.Busy
-- 
2.43.0


From 7e7fa9310c2a9fab70e1708658014ba0f8f7c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:48 +0000
Subject: [PATCH 16/80] fix: never lose or hang on a request whose client fails
 in threaded socket mode

---
 ipi/interfaces/sockets.py | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 974dd18..e746b0a 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -24,7 +24,7 @@ from ipi.utils.messages import verbosity, warning, info
 from ipi.utils.softexit import softexit
 from ipi.interfaces.utils import parse_extra
 
-from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import ThreadPoolExecutor, wait
 
 __all__ = ["InterfaceSocket"]
 
@@ -546,6 +546,8 @@ class Driver(DriverSocket):
 
         r["start"] = time.time()
         self.sendpos(r["pos"][r["active"]], r["cell"])
+        if not (self.status & Status.Up):
+            return  # the positions were not sent completely, cannot use this client
 
         self.get_status()
         if not (self.status & Status.HasData):
@@ -1411,14 +1413,14 @@ class InterfaceSocket(object):
                 self.clients.remove(c)
                 # requeue jobs that have been left hanging
                 for [k, j, tc] in self.jobs[:]:
-                    tc.result()
                     if j is c:
+                        if tc is not None:
+                            wait([tc])
                         self.jobs = [
                             w for w in self.jobs if not (w[0] is k and w[1] is j)
                         ]  # removes pair in a robust way
 
-                        k["status"] = "Queued"
-                        k["start"] = -1
+                        self._requeue_disconnected(k, c)
 
         if len(self.clients) == 0:
             searchtimeout = SERVERTIMEOUT
@@ -1505,11 +1507,13 @@ class InterfaceSocket(object):
         ndispatch = 0
         tdispatch -= time.time()
         while len(freec) > 0 and len(self.prlist) > 0:
+            dispatched_this_round = False
             for match_ids in match_seq:
                 for fc in freec[:]:
                     if self.dispatch_free_client(fc, match_ids):
                         freec.remove(fc)
                         ndispatch += 1
+                        dispatched_this_round = True
 
                     if len(self.prlist) == 0:
                         break
@@ -1520,6 +1524,9 @@ class InterfaceSocket(object):
 
             if len(freec) > 0:
                 self.prlist = [r for r in self.requests if r["status"] == "Queued"]
+            # the clients that are left cannot take any of the requests
+            if not dispatched_this_round:
+                break
         tdispatch += time.time()
 
         # now check for client status
@@ -1681,6 +1688,8 @@ class InterfaceSocket(object):
         a list of requests (batched job).
         """
         for rr in r if isinstance(r, list) else [r]:
+            if rr["status"] == "Done":
+                continue  # the results had already been received
             rr["status"] = "Queued"
             rr["start"] = -1
         c.status = Status.Disconnected
@@ -1822,6 +1831,21 @@ class InterfaceSocket(object):
                 pass
             c.close()
             c.status = Status.Disconnected
-            return 0  # client will be cleared and request resuscitated in poll_update
+            # client will be cleared in pool_update
+            self._requeue_disconnected(r, c)
+            return 0
+
+        if ct.done() and r["status"] != "Done":
+            # the dispatch thread gave up on this client
+            warning(
+                " @SOCKET:   Client "
+                + str(c.peername)
+                + " did not complete the request"
+                + ("." if ct.exception() is None else ": " + repr(ct.exception()))
+                + " Disconnecting.",
+                verbosity.low,
+            )
+            self._requeue_disconnected(r, c)
+            return 0
 
         return -1
-- 
2.43.0


From 86d45b29347aaee63b207eb73091941e25e56f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:19 +0000
Subject: [PATCH 17/80] fix: python driver: extra strings with non-ASCII
 characters, headers arriving in pieces, endless loop on disconnection

---
 drivers/py/driver.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/drivers/py/driver.py b/drivers/py/driver.py
index dbb4ed5..29c542d 100755
--- a/drivers/py/driver.py
+++ b/drivers/py/driver.py
@@ -20,7 +20,7 @@ def recv_data(sock, data):
     while bpos < blen:
         timeout = False
         try:
-            bpart = 1
+            bpart = 0
             bpart = sock.recv_into(buf[bpos:], blen - bpos)
         except socket.timeout:
             print(" @SOCKET:   Timeout in status recvall, trying again!")
@@ -41,7 +41,15 @@ def send_data(sock, data):
     if np.isscalar(data):
         data = np.array([data], data.dtype)
     buf = data.tobytes()
-    sock.send(buf)
+    sock.sendall(buf)
+
+
+def send_extra(sock, extra):
+    """Sends an extra string, preceded by its length in bytes."""
+
+    extra = extra.encode("utf-8")
+    send_data(sock, np.int32(len(extra)))
+    sock.sendall(extra)
 
 
 HDRLEN = 12  # number of characters of the default message strings
@@ -98,7 +106,7 @@ def run_driver(
     force = np.zeros(0, float)
     vir = np.zeros((3, 3), float)
     while True:  # ah the infinite loop!
-        header = sock.recv(HDRLEN)
+        header = recv_data(sock, np.empty(HDRLEN, dtype="S1")).tobytes()
         if f_verbose:
             print("Received ", header)
         if header == Message("STATUS"):
@@ -214,8 +222,7 @@ def run_driver(
             sock.sendall(Message("FORCEREADY"))
             for res in results_batch:
                 extra = res[3]
-                send_data(sock, np.int32(len(extra)))
-                sock.sendall(extra.encode("utf-8"))
+                send_extra(sock, extra)
             f_data = False
         elif header == Message("GETFORCE") and batch_n > 1:
             sock.sendall(Message("FORCEREADY"))
@@ -236,8 +243,7 @@ def run_driver(
             send_data(sock, virs)
             for res in results_batch:
                 extra = res[3]
-                send_data(sock, np.int32(len(extra)))
-                sock.sendall(extra.encode("utf-8"))
+                send_extra(sock, extra)
             f_data = False
         elif header == Message("GETFORCE"):
             sock.sendall(Message("FORCEREADY"))
@@ -270,8 +276,7 @@ def run_driver(
             send_data(sock, np.int32(nat))
             send_data(sock, force)
             send_data(sock, vir)
-            send_data(sock, np.int32(len(extras)))
-            sock.sendall(extras.encode("utf-8"))
+            send_extra(sock, extras)
 
             f_data = False
         elif header == Message("EXIT"):
-- 
2.43.0


From 8bf6310a1eb6d75db66c0d40b96d8e4cb59d8513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:30 +0000
Subject: [PATCH 18/80] fix: extra strings that are JSON but not an object

---
 ipi/interfaces/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/interfaces/utils.py b/ipi/interfaces/utils.py
index 8fe8962..23a0ca3 100644
--- a/ipi/interfaces/utils.py
+++ b/ipi/interfaces/utils.py
@@ -19,6 +19,9 @@ def parse_extra(mxtra):
     except Exception:
         # not JSON: still expose the literal string under 'raw'
         mxtradict = {}
+    if not isinstance(mxtradict, dict):
+        # valid JSON, but with no fields
+        mxtradict = {}
     if "raw" in mxtradict:
         raise ValueError(
             "'raw' cannot be used as a field in a JSON-formatted extra string"
-- 
2.43.0


From 54449238d064143f8fa223c43f548e3f31349ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:42 +0000
Subject: [PATCH 19/80] fix: honour the active atoms in the MPI interface

---
 ipi/interfaces/mpi.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ipi/interfaces/mpi.py b/ipi/interfaces/mpi.py
index 593878c..b171e63 100644
--- a/ipi/interfaces/mpi.py
+++ b/ipi/interfaces/mpi.py
@@ -286,11 +286,24 @@ class InterfaceMPI:
             extra = ebuf[epos : epos + elen].tobytes().decode("utf-8") if elen else ""
             epos += elen
 
+            # if only a piece of the system is active, resize forces and reassign
+            if "active" in req and len(req["active"]) != len(req["pos"]):
+                active_force = force
+                force = np.zeros(len(req["pos"]), dtype=np.float64)
+                force[req["active"]] = active_force
+
             req["result"] = [pot - self.offset, force, vir, parse_extra(extra)]
             req["status"] = "Done"
             req["t_finished"] = time.time()
             req._event_done.set()
 
+    @staticmethod
+    def _active_pos(req):
+        """Positions of the atoms this forcefield acts on."""
+
+        pos = dstrip(req["pos"]).reshape(-1)
+        return pos[req["active"]] if "active" in req else pos
+
     def _dispatch(self, MPI):
         """Sends queued requests to idle slots, up to batch_size per slot."""
 
@@ -305,7 +318,7 @@ class InterfaceMPI:
             batch = queued[qi : qi + self.batch_size]
             qi += len(batch)
 
-            nat = len(batch[0]["pos"]) // 3
+            nat = len(self._active_pos(batch[0])) // 3
             slot["nat"] = nat
             header = np.array([nat, len(batch)], dtype=np.int32)
             body = np.empty(len(batch) * (18 + 3 * nat), dtype=np.float64)
@@ -314,7 +327,7 @@ class InterfaceMPI:
                 off = i * (18 + 3 * nat)
                 body[off : off + 9] = np.asarray(h).reshape(-1)
                 body[off + 9 : off + 18] = np.asarray(ih).reshape(-1)
-                body[off + 18 : off + 18 + 3 * nat] = dstrip(req["pos"]).reshape(-1)
+                body[off + 18 : off + 18 + 3 * nat] = self._active_pos(req)
                 req["status"] = "Running"
                 req["t_dispatched"] = time.time()
 
-- 
2.43.0


From 7151c512282d5ca47e8aab7ac4830c522575b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:33 +0000
Subject: [PATCH 20/80] fix: a connection reset by a client counts as a
 disconnection instead of ending the polling thread

---
 ipi/interfaces/sockets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index e746b0a..64fdb83 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -204,6 +204,8 @@ class DriverSocket(socket.socket):
                     )
                     raise Disconnected()
                 pass
+            except socket.error:
+                raise Disconnected()
 
             if not timeout and bpart == 0:
                 raise Disconnected()
@@ -720,6 +722,8 @@ class Driver(DriverSocket):
                     )
                     raise Disconnected()
                 continue
+            except socket.error:
+                raise Disconnected()
             if bpart == 0:
                 raise Disconnected()
             bpos += bpart
@@ -764,6 +768,8 @@ class Driver(DriverSocket):
                     if ntimeout > NTIMEOUT:
                         raise Disconnected()
                     continue
+                except socket.error:
+                    raise Disconnected()
                 if bpart == 0:
                     raise Disconnected()
                 bpos += bpart
-- 
2.43.0


From 641d5ff0b61c3b9b42a0520e6d7a409454710ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:59 +0000
Subject: [PATCH 21/80] fix: declare all the quantities that combined forces,
 extras and Suzuki-Chin terms depend on

---
 ipi/engine/forces.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index ca356dc..4c219fd 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -745,6 +745,11 @@ class Forces:
         self._pots.add_dependency(nforces._pots)
         self._virs.add_dependency(nforces._virs)
         self._extras.add_dependency(nforces._extras)
+        # the weight of the component is applied here
+        self._f.add_dependency(nforces._weight)
+        self._pots.add_dependency(nforces._weight)
+        self._virs.add_dependency(nforces._weight)
+        self._extras.add_dependency(nforces._weight)
 
     def bind(self, beads, cell, fcomponents, fflist, open_paths, output_maker):
         """Binds beads, cell and forces to the forcefield.
@@ -920,7 +925,7 @@ class Forces:
         self._fvir_4th_order = depend_value(
             name="fvir_4th_order",
             value=[None, None],
-            dependencies=[self.beads._m, self._f, self._pots],
+            dependencies=[self.beads._m, self._f, self._pots, self._alpha],
             func=self.fvir_4th_order_combine,
         )
 
@@ -984,7 +989,7 @@ class Forces:
 
         self._virsc = depend_value(
             name="virsc",
-            dependencies=[self._potssc],
+            dependencies=[self._virssc],
             func=(lambda: np.sum(self.virssc, axis=0)),
         )
 
@@ -995,6 +1000,7 @@ class Forces:
             self._f.add_dependency(fc._weight)
             self._pots.add_dependency(fc._weight)
             self._virs.add_dependency(fc._weight)
+            self._extras.add_dependency(fc._weight)
 
     def clone(self, beads, cell):
         """Duplicates the force object, so that it can be used to compute forces
-- 
2.43.0


From 83d671092b34b65032d00d64f4e87119101e652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:59 +0000
Subject: [PATCH 22/80] fix: do not mark out-of-date forces as current when
 transferring the state of a force object

---
 ipi/engine/forces.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 4c219fd..d13d0ac 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -1051,7 +1051,11 @@ class Forces:
 
             bead_forces = []
             for b in range(mself.nbeads):
-                bead_forces.append(deepcopy(mself._forces[b]._ufvx._value))
+                if mself._forces[b]._ufvx.tainted():
+                    # out of date, must be computed if it is ever needed
+                    bead_forces.append(None)
+                else:
+                    bead_forces.append(deepcopy(mself._forces[b]._ufvx._value))
             force_data.append(
                 (
                     # will also need bead positions, see _load_state
@@ -1096,6 +1100,9 @@ class Forces:
                 )
 
             for b in range(mself.nbeads):
+                if fb[b] is None:
+                    mself._forces[b]._ufvx.taint(taintme=True)
+                    continue
                 mself._forces[b]._ufvx.set(fb[b], manual=False)
                 mself._forces[b]._ufvx.taint(taintme=False)
 
-- 
2.43.0


From 06d80d8ebfe327a1cadb01d15dd47e760847d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:59 +0000
Subject: [PATCH 23/80] fix: combining extras changed the extras of the first
 force component

---
 ipi/engine/forces.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index d13d0ac..9ac86b7 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -1551,8 +1551,9 @@ class Forces:
                             # concatenates raw outputs
                             if e in re:
                                 # concatenation must happen bead per bead
-                                for ib in range(self.nbeads):
-                                    re["raw"][ib] += v[ib]
+                                re["raw"] = [
+                                    re["raw"][ib] + v[ib] for ib in range(self.nbeads)
+                                ]
                             else:
                                 re["raw"] = v
                         else:
-- 
2.43.0


From dfdb533459c5a7104a9f44c00fb177d9e1b8c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:15 +0000
Subject: [PATCH 24/80] fix: do not mark forces as done before the energy
 offset is applied

---
 ipi/engine/forcefields.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 111c60a..f78852c 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -393,8 +393,16 @@ class FFEval(ForceField):
 
     def _eval_thread(self, request):
         """Evaluates a single request and applies the offset."""
-        self.evaluate(request)
-        request["result"][0] -= self.offset
+
+        # works on a copy, so that the request is only marked as done when
+        # its result is final
+        work = ForceRequest(request)
+        self.evaluate(work)
+        work["result"][0] -= self.offset
+        request["result"] = work["result"]
+        request["t_finished"] = time.time()
+        request["status"] = "Done"
+        request._event_done.set()
 
     def poll(self):
         """Polls the forcefield checking if there are requests that should
-- 
2.43.0


From a88d5c9b7a406c85b1632a929129454d4919b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:15 +0000
Subject: [PATCH 25/80] fix: honour the list of active atoms in the direct and
 Lennard-Jones forcefields

---
 ipi/engine/forcefields.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index f78852c..80912a8 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -587,7 +587,10 @@ class FFDirect(ForceField):
     def _process_results(self, results, request):
         # ensure shapes, apply the offset and parse the extra string
         results[0] -= self.offset
-        results[1] = np.asarray(results[1]).reshape(-1)
+        # only the active atoms are sent to the driver, the others feel no force
+        forces = np.zeros(len(request["pos"]), float)
+        forces[request["active"]] = np.asarray(results[1]).reshape(-1)
+        results[1] = forces
         results[2] = np.asarray(results[2]).reshape(3, 3)
         results[3] = parse_extra(results[3])
 
@@ -605,7 +608,9 @@ class FFDirect(ForceField):
             verbosity.high,
         )
         cell_batch = [r["cell"][0] for r in self.request_batch]
-        pos_batch = [r["pos"].reshape(-1, 3) for r in self.request_batch]
+        pos_batch = [
+            r["pos"][r["active"]].reshape(-1, 3) for r in self.request_batch
+        ]
         results_batch = self.driver(cell_batch, pos_batch)
         for results, request in zip(results_batch, self.request_batch):
             self._process_results(list(results), request)
@@ -615,7 +620,10 @@ class FFDirect(ForceField):
     def evaluate(self, request):
         if self.batch_size == 1:
             results = list(
-                self.driver(request["cell"][0], request["pos"].reshape(-1, 3))
+                self.driver(
+                    request["cell"][0],
+                    request["pos"][request["active"]].reshape(-1, 3),
+                )
             )
             self._process_results(results, request)
         else:
@@ -675,7 +683,7 @@ class FFLennardJones(FFEval):
         """Just a silly function evaluating a non-cutoffed, non-pbc and
         non-neighbour list LJ potential."""
 
-        q = r["pos"].reshape((-1, 3))
+        q = r["pos"][r["active"]].reshape((-1, 3))
         nat = len(q)
 
         v = 0.0
@@ -694,7 +702,11 @@ class FFLennardJones(FFEval):
 
         v *= self.epsfour
 
-        r["result"] = [v, f.reshape(nat * 3), np.zeros((3, 3), float), {"raw": ""}]
+        # only the active atoms interact
+        forces = np.zeros(len(r["pos"]), float)
+        forces[r["active"]] = f.reshape(nat * 3)
+
+        r["result"] = [v, forces, np.zeros((3, 3), float), {"raw": ""}]
         r["status"] = "Done"
         r._event_done.set()
 
-- 
2.43.0


From 63415cce5a223025db4f2ac22ef929f2732395a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:15 +0000
Subject: [PATCH 26/80] fix: accept energies returned as one-element arrays in
 direct forcefields

---
 ipi/engine/forcefields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 80912a8..82304f8 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -586,7 +586,7 @@ class FFDirect(ForceField):
 
     def _process_results(self, results, request):
         # ensure shapes, apply the offset and parse the extra string
-        results[0] -= self.offset
+        results[0] = np.asarray(results[0]).item() - self.offset
         # only the active atoms are sent to the driver, the others feel no force
         forces = np.zeros(len(request["pos"]), float)
         forces[request["active"]] = np.asarray(results[1]).reshape(-1)
-- 
2.43.0


From 0bb3b15a2d508cdb24771dd0f84b3470fd4e300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:15 +0000
Subject: [PATCH 27/80] fix: rotations forcefield: a request finished by the
 polling thread was marked again as running

---
 ipi/engine/forcefields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 82304f8..e5707db 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1799,7 +1799,7 @@ class FFRotations(ForceField):
         req = ForceField.queue(
             self, atoms, cell, reqid, template=dict(ff_handles=ffh, rots=rots)
         )
-        req["status"] = "Running"
+        # NB: must not touch the status, as the polling thread might already be done
         req["t_dispatched"] = time.time()
         return req
 
-- 
2.43.0


From f2bfc7b66efe69261523bb0c76e5f933b6cb9bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:15 +0000
Subject: [PATCH 28/80] fix: PLUMED: sign of the physical virial removed from
 the bias, crash when positions moved before an update

---
 ipi/engine/forcefields.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index e5707db..4d98b65 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1068,7 +1068,7 @@ class FFPlumed(FFEval):
         if self.system_force is not None:
             # plumed increments the value of the force, here we need only the correction term
             f[:] -= dstrip(self.system_force.f).flatten()
-            vir[:] -= -dstrip(self.system_force.vir)
+            vir[:] -= dstrip(self.system_force.vir)
 
         extras = {"raw": ""}
         for x in self.plumed_data:
@@ -1104,7 +1104,9 @@ class FFPlumed(FFEval):
                 "triggering a full PLUMED update.",
                 verbosity.medium,
             )
-            request = {"pos": dstrip(pos), "cell": (dstrip(cell), None), "result": None}
+            request = ForceRequest(
+                {"pos": dstrip(pos), "cell": (dstrip(cell), None), "result": None}
+            )
             self.evaluate(request)
 
         if self.compute_work:
-- 
2.43.0


From bc8760ac3b6812ffd2fc59a2be8ff2aa1bfcdda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:15 +0000
Subject: [PATCH 29/80] fix: number of atoms in the Yaff forcefield is an
 integer

---
 ipi/engine/forcefields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 4d98b65..9368a27 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1224,7 +1224,7 @@ class FFYaff(FFEval):
         """Evaluate the energy and forces with the Yaff force field."""
 
         q = r["pos"]
-        nat = len(q) / 3
+        nat = len(q) // 3
         rvecs = r["cell"][0]
 
         self.ff.update_rvecs(np.ascontiguousarray(rvecs.T, dtype=np.float64))
-- 
2.43.0


From a0f31041056bfede9168a54d5b7d756f02c5dcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:15 +0000
Subject: [PATCH 30/80] fix: cavity forcefield: the energy offset was
 subtracted twice

---
 ipi/engine/forcefields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 9368a27..0d48abd 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -2487,7 +2487,7 @@ class FFCavPhSocket(FFSocket):
             result_tot[1][2:ndim_tot:3] += fz_cav
             result_tot[1][ndim_tot:] = f_ph
 
-        result_tot[0] -= self.offset
+        # NB: the offset has already been subtracted by the socket interface
 
         # At this moment, we have sucessfully gathered the CavMD forces
         newreq = ForceRequest(
-- 
2.43.0


From 7ba42a4217ec96e9d274158d712cefcc16e6538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:52 +0000
Subject: [PATCH 31/80] fix: committee: report the extras of all the members,
 not only of the last one

---
 ipi/engine/forcefields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 0d48abd..2691462 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1504,6 +1504,8 @@ class FFCommittee(ForceField):
         all_have_vir = True
 
         for ff_r in com_handles:
+            xtrs.append(ff_r["result"][3])
+
             # if required, tries to extract multiple committe members from the extras JSON string
             if "committee_pot" in ff_r["result"][3] and self.parse_json:
                 pots += ff_r["result"][3]["committee_pot"]
@@ -1543,8 +1545,6 @@ class FFCommittee(ForceField):
             )
         virs = np.array(virs).reshape(-1, 3, 3)
 
-        xtrs.append(ff_r["result"][3])
-
         # Computes the mean energetics
         mean_pot = np.mean(pots, axis=0)
         mean_frc = np.mean(frcs, axis=0)
@@ -1658,7 +1658,7 @@ class FFCommittee(ForceField):
                 )
             r["result"][3][("committee_" + k)] = []
             for x in xtrs:
-                r["result"][3][("committee_" + k)].append(x[k])
+                r["result"][3][("committee_" + k)].append(x.get(k))
 
         if self.active_thresh > 0.0 and std_pot > self.active_thresh:
             dumps = json.dumps(
-- 
2.43.0


From e70862006451fb7f74845af603763e435d5bea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:52 +0000
Subject: [PATCH 32/80] fix: committee: apply the weights of the members

---
 ipi/engine/forcefields.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 2691462..cfe5685 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1503,34 +1503,44 @@ class FFCommittee(ForceField):
         all_have_frc = True
         all_have_vir = True
 
-        for ff_r in com_handles:
+        ffweights = self.ffweights
+        if len(ffweights) == 0:
+            ffweights = np.ones(len(com_handles))
+
+        for ff_r, ffw in zip(com_handles, ffweights):
             xtrs.append(ff_r["result"][3])
 
             # if required, tries to extract multiple committe members from the extras JSON string
             if "committee_pot" in ff_r["result"][3] and self.parse_json:
-                pots += ff_r["result"][3]["committee_pot"]
+                pots += [ffw * x for x in ff_r["result"][3]["committee_pot"]]
                 if "committee_force" in ff_r["result"][3]:
-                    frcs += ff_r["result"][3]["committee_force"]
+                    frcs += [
+                        ffw * np.asarray(x)
+                        for x in ff_r["result"][3]["committee_force"]
+                    ]
                     ff_r["result"][3].pop("committee_force")
                 else:
                     # if the commitee doesn't have forces, just add the mean force from this model
-                    frcs.append(ff_r["result"][1])
+                    frcs.append(ffw * ff_r["result"][1])
                     warning("JSON committee doesn't have forces", verbosity.medium)
                     all_have_frc = False
 
                 if "committee_virial" in ff_r["result"][3]:
-                    virs += ff_r["result"][3]["committee_virial"]
+                    virs += [
+                        ffw * np.asarray(x)
+                        for x in ff_r["result"][3]["committee_virial"]
+                    ]
                     ff_r["result"][3].pop("committee_virial")
                 else:
                     # if the commitee doesn't have virials, just add the mean virial from this model
-                    virs.append(ff_r["result"][2])
+                    virs.append(ffw * ff_r["result"][2])
                     warning("JSON committee doesn't have virials", verbosity.medium)
                     all_have_vir = False
 
             else:
-                pots.append(ff_r["result"][0])
-                frcs.append(ff_r["result"][1])
-                virs.append(ff_r["result"][2])
+                pots.append(ffw * ff_r["result"][0])
+                frcs.append(ffw * ff_r["result"][1])
+                virs.append(ffw * ff_r["result"][2])
 
         pots = np.array(pots)
         if len(pots) != len(frcs) and len(frcs) > 1:
-- 
2.43.0


From 385428dc34e5a50af639ab8ed5dca9d19197866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:53 +0000
Subject: [PATCH 33/80] fix: double well with friction: the parameters of the
 potential were replaced by the defaults

---
 ipi/pes/doublewell_with_friction.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/ipi/pes/doublewell_with_friction.py b/ipi/pes/doublewell_with_friction.py
index dad3779..7ee96b0 100644
--- a/ipi/pes/doublewell_with_friction.py
+++ b/ipi/pes/doublewell_with_friction.py
@@ -53,22 +53,16 @@ class DoubleWell_with_friction_driver(DoubleWell_driver):
         **kwargs
     ):
 
-        try:
-            w_b = w_b * invcm2au
-            v0 = v0 * invcm2au
-            self.delta = delta * A2au
-            self.eta0 = eta0
-            self.eps1 = eps1
-            self.eps2 = eps2
-            self.deltaQ = deltaQ
-            self.k = 1837.36223469 * (3800.0 / 219323.0) ** 2
-            self.A = -0.5 * m * (w_b) ** 2
-            self.B = ((m**2) * (w_b) ** 4) / (16 * v0)
-
-        except:
+        if None in (w_b, v0, m, eta0, eps1, eps2, delta, deltaQ):
             sys.exit(self.__doc__)
 
-        super().__init__(*args, **kwargs)
+        self.eta0 = eta0
+        self.eps1 = eps1
+        self.eps2 = eps2
+        self.deltaQ = deltaQ
+
+        # the parameters of the double well are dealt with by the base class
+        super().__init__(w_b, v0, m, delta, *args, **kwargs)
 
     def check_dimensions(self, pos):
         """Functions that checks dimensions of the received position"""
-- 
2.43.0


From aee8f40ff497f230608888ba970c3db1b82751ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:53 +0000
Subject: [PATCH 34/80] fix: potentials with an explicit harmonic bath could
 not be evaluated

---
 ipi/pes/bath.py             | 5 +++++
 ipi/pes/doubledoublewell.py | 5 ++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ipi/pes/bath.py b/ipi/pes/bath.py
index 20cdb79..55ff957 100644
--- a/ipi/pes/bath.py
+++ b/ipi/pes/bath.py
@@ -79,3 +79,8 @@ class Harmonic_Bath_explicit(object):
                 fx[i] -= (self.m * self.omega2[i] * aux).flatten()
 
         return pot_bath, fq_bath, fx
+
+    def __call__(self, q, x):
+        """Function interface"""
+
+        return self.compute_structure(q, x)
diff --git a/ipi/pes/doubledoublewell.py b/ipi/pes/doubledoublewell.py
index 6035c8c..c85b666 100644
--- a/ipi/pes/doubledoublewell.py
+++ b/ipi/pes/doubledoublewell.py
@@ -89,7 +89,6 @@ class DDW_with_explicit_bath_driver(Dummy_driver):
             self.bath_parameters["eps2"] = eps2
             self.bath_parameters["deltaQ"] = deltaQ
             self.bath_parameters["w_c"] = w_c * invcm2au
-            self.bath_parameters["delta"] = self.delta
         # def __init__(self, nbath, m, eta0, eps1, eps2, deltaQ, w_c, *args, **kwargs):
 
         except:
@@ -109,8 +108,8 @@ class DDW_with_explicit_bath_driver(Dummy_driver):
             self.ndof = np.size(pos)
             assert self.ndof % 2 == 0, "Sorry we need an even number of ndof"
             self.nbath = (self.ndof - 2) // 2
-            self.bath1 = Harmonic_Bath_explicit(self.nbath, self.bath_parameters)
-            self.bath2 = Harmonic_Bath_explicit(self.nbath, self.bath_parameters)
+            self.bath1 = Harmonic_Bath_explicit(self.nbath, **self.bath_parameters)
+            self.bath2 = Harmonic_Bath_explicit(self.nbath, **self.bath_parameters)
             self.init = True
 
         pot = 0
-- 
2.43.0


From fef5f460580b3621049956b2787c8c83a5a3aed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:27 +0000
Subject: [PATCH 35/80] fix: double well with friction: order of the parameters
 is the documented one

---
 ipi/pes/doublewell_with_friction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/pes/doublewell_with_friction.py b/ipi/pes/doublewell_with_friction.py
index 7ee96b0..ba927a4 100644
--- a/ipi/pes/doublewell_with_friction.py
+++ b/ipi/pes/doublewell_with_friction.py
@@ -44,10 +44,10 @@ class DoubleWell_with_friction_driver(DoubleWell_driver):
         w_b=None,
         v0=None,
         m=None,
+        delta=None,
         eta0=None,
         eps1=None,
         eps2=None,
-        delta=None,
         deltaQ=None,
         *args,
         **kwargs
-- 
2.43.0


From 96bc0f47c8c48064b47850342d5daf3488c5b666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:44 +0000
Subject: [PATCH 36/80] fix: cavity forcefield: requests from several threads
 were mixed up

---
 ipi/engine/forcefields.py | 44 ++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index cfe5685..f942201 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -2374,9 +2374,9 @@ class FFCavPhSocket(FFSocket):
             self.poll()
 
         # sleeps until all the new requests have been evaluated
-        for self.request in newreq_lst:
-            while self.request["status"] != "Done":
-                if self.request["status"] == "Exit" or softexit.triggered:
+        for request in newreq_lst:
+            while request["status"] != "Done":
+                if request["status"] == "Exit" or softexit.triggered:
                     # now, this is tricky. we are stuck here and we cannot return meaningful results.
                     # if we return, we may as well output wrong numbers, or mess up things.
                     # so we can only call soft-exit and wait until that is done. then kill the thread
@@ -2385,7 +2385,7 @@ class FFCavPhSocket(FFSocket):
                     while softexit.exiting:
                         time.sleep(self.latency)
                     sys.exit()
-                self.request._event_done.wait(timeout=1.0)
+                request._event_done.wait(timeout=1.0)
 
             """
             with self._threadlock:
@@ -2399,8 +2399,7 @@ class FFCavPhSocket(FFSocket):
                 while self._getallcount > 0:
                     time.sleep(self.latency)
             """
-            self.release(self.request)
-            self.request = None
+            self.release(request)
 
         # ...atomic forces have been calculated at this point
 
@@ -2468,21 +2467,24 @@ class FFCavPhSocket(FFSocket):
                         charge_array_bath=self.charge_array,
                     )
 
-                # 5. calculate photonic contribution of total energy
-                e_ph = self.ph.get_ph_energy(dx_array=dx_array, dy_array=dy_array)
-                # 6. calculate photonic forces
-                f_ph = self.ph.get_ph_forces(dx_array=dx_array, dy_array=dy_array)
-                # 7. calculate cavity forces on nuclei
-                if self.dipole_surface:
-                    fx_cav, fy_cav, fz_cav = self.ph.get_nuc_cav_forces(
-                        dx_array=dx_array, dy_array=dy_array, dipole_der=dipole_der
-                    )
-                else:
-                    fx_cav, fy_cav, fz_cav = self.ph.get_nuc_cav_forces(
-                        dx_array=dx_array,
-                        dy_array=dy_array,
-                        charge_array_bath=self.charge_array,
-                    )
+                # the photon driver is shared by all the threads that request forces
+                with self._threadlock:
+                    self.ph.split_atom_ph_coord(pbcpos)
+                    # 5. calculate photonic contribution of total energy
+                    e_ph = self.ph.get_ph_energy(dx_array=dx_array, dy_array=dy_array)
+                    # 6. calculate photonic forces
+                    f_ph = self.ph.get_ph_forces(dx_array=dx_array, dy_array=dy_array)
+                    # 7. calculate cavity forces on nuclei
+                    if self.dipole_surface:
+                        fx_cav, fy_cav, fz_cav = self.ph.get_nuc_cav_forces(
+                            dx_array=dx_array, dy_array=dy_array, dipole_der=dipole_der
+                        )
+                    else:
+                        fx_cav, fy_cav, fz_cav = self.ph.get_nuc_cav_forces(
+                            dx_array=dx_array,
+                            dy_array=dy_array,
+                            charge_array_bath=self.charge_array,
+                        )
 
             # this is the path to avoid double counting of photonic contributions when multiple drivers are attached to i-pi
             else:
-- 
2.43.0


From d2f695640be6112487b0cadee4376ea26c21dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:24 +0000
Subject: [PATCH 37/80] fix: sums of signed quantities given by their
 logarithms were wrong unless both are positive

---
 ipi/utils/mathtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/mathtools.py b/ipi/utils/mathtools.py
index b21f289..6a6117e 100644
--- a/ipi/utils/mathtools.py
+++ b/ipi/utils/mathtools.py
@@ -48,10 +48,10 @@ def logsumlog(lasa, lbsb):
 
     if la > lb:
         sr = sa
-        lr = la + np.log(1.0 + sb * np.exp(lb - la))
+        lr = la + np.log(1.0 + sa * sb * np.exp(lb - la))
     else:
         sr = sb
-        lr = lb + np.log(1.0 + sa * np.exp(la - lb))
+        lr = lb + np.log(1.0 + sa * sb * np.exp(la - lb))
 
     return (lr, sr)
 
-- 
2.43.0


From ea46596ecb3bd6286f6455fa9c659823682ccbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:24 +0000
Subject: [PATCH 38/80] fix: path-displacement and isotope estimators used the
 initial cell in variable-cell simulations

---
 ipi/engine/properties.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index f8e3e86..3d0e280 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1981,6 +1981,7 @@ class Properties:
         q = dstrip(self.beads.q)
         nat = self.beads.natoms
         nb = self.beads.nbeads
+        self.dcell.h = self.cell.h
         nx_tot = 0.0
         ncount = 0
         for i in range(nat):
@@ -2250,6 +2251,7 @@ class Properties:
         q = dstrip(self.beads.q)
         #        f = dstrip(self.forces.f)
         qc = dstrip(self.beads.qc)
+        self.dcell.h = self.cell.h
 
         for i in range(self.beads.natoms):
             # selects only the atoms we care about
@@ -2539,6 +2541,7 @@ class Properties:
         q = dstrip(self.beads.q)
         v0 = self.forces.pot
         self.dbeads.q = q
+        self.dcell.h = self.cell.h
 
         for i in range(self.beads.natoms):
             # selects only the atoms we care about
@@ -2738,6 +2741,7 @@ class Properties:
         f = dstrip(self.forces.f)
         v0 = self.forces.pot
         pots = self.forces.pots
+        self.dcell.h = self.cell.h
 
         for i in range(self.beads.natoms):
             # selects only the atoms we care about
@@ -3306,6 +3310,7 @@ class Trajectories:
         q = dstrip(self.system.beads.q)
         v0 = self.system.forces.pot / nb
         self.dbeads.q = q
+        self.dcell.h = self.system.cell.h
 
         for i in range(nat):
             # selects only the atoms we care about
-- 
2.43.0


From dbd3184b85efa26bc4972b59b02b6cac73d0db06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:24 +0000
Subject: [PATCH 39/80] fix: centre-of-mass velocity of a single bead could not
 be printed

---
 ipi/engine/properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 3d0e280..d9e32af 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1751,10 +1751,11 @@ class Properties:
     def get_vcom(self, latom="", bead=-1):
         """Computes the center of mass velocity for the system or for a specified species"""
 
+        bead = int(bead)
         if bead < 0:
             p = dstrip(self.beads.pc)
         else:
-            p = dstrip(self.beads[bead])
+            p = dstrip(self.beads.p)[bead]
         pcom = np.zeros(3)
         tm = 0
         for i in range(self.beads.natoms):
-- 
2.43.0


From 72fc6bac378c843d329d7aa72ef8567da514752c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:24 +0000
Subject: [PATCH 40/80] fix: forces on the beads of an atom were converted as
 lengths

---
 ipi/engine/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index d9e32af..ac0f56e 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -576,7 +576,7 @@ class Properties:
                 ),
             },
             "atom_f_path": {
-                "dimension": "length",
+                "dimension": "force",
                 "help": "The forces acting on all the beads of a particle given its index.",
                 "longhelp": """The forces acting on all the beads of a particle given its index. Takes arguments index
                        and bead (both zero based). If bead is not specified, refers to the centroid.""",
-- 
2.43.0


From 6a2cfea7580ccf9c415aa7b9aa0a9b014246416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:57 +0000
Subject: [PATCH 41/80] fix: average of the bare potential of a contracted
 force component was divided by the wrong number of beads

---
 ipi/engine/properties.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index ac0f56e..fc3af3a 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -405,8 +405,7 @@ class Properties:
                        discretization of the given component. Potential weights will not be applied. """,
                 "func": (
                     lambda index, bead="-1": (
-                        self.forces.pots_component(int(index), False, False).sum()
-                        / self.beads.nbeads
+                        self.forces.pots_component(int(index), False, False).mean()
                         if int(bead) < 0
                         else self.forces.pots_component(int(index), False, False)[
                             int(bead)
-- 
2.43.0


From 445b10a0bd0a525db86520d5e8d7e283b4de3ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:33 +0000
Subject: [PATCH 42/80] fix: force-position products with different references
 all used the first reference

---
 ipi/engine/properties.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index fc3af3a..0ad3abd 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -983,7 +983,7 @@ class Properties:
         self.dbeads = system.beads.clone()
         self.dcell = system.cell.clone()
         self.dforces = system.forces.clone(self.dbeads, self.dcell)
-        self.fqref = None
+        self.fqref = {}
         self._threadlock = (
             system._propertylock
         )  # lock to avoid concurrent access and messing up with dbeads
@@ -1301,20 +1301,20 @@ class Properties:
         return acv
 
     def get_fqvirial(self, ref="", units=""):
-        if self.fqref is None:
+        if (ref, units) not in self.fqref:
             if ref == "":
-                self.fqref = np.zeros(3 * self.beads.natoms)
+                fqref = np.zeros(3 * self.beads.natoms)
             else:
-                self.fqref = np.loadtxt(ref).flatten() * unit_to_internal(
-                    "length", units, 1
-                )
-                if len(self.fqref) != 3 * self.beads.natoms:
+                fqref = np.loadtxt(ref).flatten() * unit_to_internal("length", units, 1)
+                if len(fqref) != 3 * self.beads.natoms:
                     raise ValueError(
                         "Atom number mismatch in reference file for virial_fq"
                     )
+            self.fqref[(ref, units)] = fqref
+        fqref = self.fqref[(ref, units)]
         fq = 0.0
         for b in range(self.beads.nbeads):
-            fq += np.dot(self.forces.f[b], self.beads.q[b] - self.fqref)
+            fq += np.dot(self.forces.f[b], self.beads.q[b] - fqref)
 
         return fq * 0.5 / self.beads.nbeads
 
-- 
2.43.0


From 7b57fa0c5489b99e172ede41ba67fc3abc94d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:52 +0000
Subject: [PATCH 43/80] fix: spring forces of the path did not follow a change
 of the masses

---
 ipi/engine/beads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/beads.py b/ipi/engine/beads.py
index be569ad..f5fdc9b 100644
--- a/ipi/engine/beads.py
+++ b/ipi/engine/beads.py
@@ -138,7 +138,7 @@ class Beads:
             name="fpath",
             value=np.zeros((nbeads, 3 * natoms), float),
             func=self.get_fpath,
-            dependencies=[self._q],
+            dependencies=[self._q, self._m3],
         )
 
         # create proxies to access the individual beads as Atoms objects
-- 
2.43.0


From feb4e837f929890cedd3e4c761f7f142dee5dcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:52 +0000
Subject: [PATCH 44/80] fix: centroid propagator kept using the old masses and
 time step after they change

---
 ipi/engine/motion/dynamics.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index bc9b281..8e00542 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -308,8 +308,12 @@ class DummyIntegrator:
             self.activeatoms_mask = False
 
         # total number of iteration in the inner-most MTS loop
-        self._inmts = depend_value(name="inmts", func=lambda: np.prod(self.nmts))
-        self._nmtslevels = depend_value(name="nmtslevels", func=lambda: len(self.nmts))
+        self._inmts = depend_value(
+            name="inmts", func=lambda: np.prod(self.nmts), dependencies=[self._nmts]
+        )
+        self._nmtslevels = depend_value(
+            name="nmtslevels", func=lambda: len(self.nmts), dependencies=[self._nmts]
+        )
         # these are the time steps to be used for the different parts of the integrator
         self._qdt = depend_value(
             name="qdt",
@@ -320,6 +324,7 @@ class DummyIntegrator:
             name="qdt_on_m",
             value=np.zeros(3 * self.beads.natoms),
             func=lambda: self.qdt / dstrip(self.beads.m3)[0],
+            dependencies=[self._qdt, self.beads._m3],
         )
         self._pdt = depend_array(
             name="pdt",
-- 
2.43.0


From 8b82ba6069a8d19cceeb89b3432b7a0fd9db759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:52 +0000
Subject: [PATCH 45/80] fix: internal stress of a barostat did not follow the
 masses and the bias

---
 ipi/engine/barostats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index df5cbe0..4391dd4 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -183,13 +183,16 @@ class Barostat:
         self._kstress = depend_value(
             name="kstress",
             func=self.get_kstress,
-            dependencies=[beads._q, beads._qc, beads._pc, forces._f],
+            dependencies=[beads._q, beads._qc, beads._pc, beads._m, forces._f],
         )
         self._stress = depend_value(
             name="stress",
             func=self.get_stress,
             dependencies=[self._kstress, cell._V, forces._vir],
         )
+        if bias is not None:
+            self._kstress.add_dependency(bias._f)
+            self._stress.add_dependency(bias._vir)
 
         self._pot = depend_value(name="pot", value=0.0)
 
-- 
2.43.0


From 1732aa6b99f3d1b5976cd0c6b80b023f7eb88b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:31 +0000
Subject: [PATCH 46/80] fix: dynamical masses of the normal modes did not
 follow a change of the temperature

---
 ipi/engine/normalmodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index e3c6afd..57f2742 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -285,20 +285,20 @@ class NormalModes:
             name="nm_factor",
             value=np.zeros(self.nbeads, float),
             func=self.get_nmm,
-            dependencies=[self._nm_freqs, self._mode],
+            dependencies=[self._nm_freqs, self._mode, self._omegak],
         )
         # add o_nm_factor for the dynamical mass in the case of open paths
         self._o_nm_factor = depend_array(
             name="nmm",
             value=np.zeros(self.nbeads, float),
             func=self.get_o_nmm,
-            dependencies=[self._nm_freqs, self._mode],
+            dependencies=[self._nm_freqs, self._mode, self._o_omegak],
         )
         self._dynm3 = depend_array(
             name="dynm3",
             value=np.zeros((self.nbeads, 3 * self.natoms), float),
             func=self.get_dynm3,
-            dependencies=[self._nm_factor, self.beads._m3],
+            dependencies=[self._nm_factor, self._o_nm_factor, self.beads._m3],
         )
         self._dynomegak = depend_array(
             name="dynomegak",
-- 
2.43.0


From 4e8a41ae30cc7f174c4ce60abc313eab117a6165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:03 +0000
Subject: [PATCH 47/80] fix: constrained dynamics could not be set up from an
 input file

---
 ipi/engine/motion/constrained_dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/motion/constrained_dynamics.py b/ipi/engine/motion/constrained_dynamics.py
index 3749d82..38157c1 100644
--- a/ipi/engine/motion/constrained_dynamics.py
+++ b/ipi/engine/motion/constrained_dynamics.py
@@ -62,7 +62,7 @@ class ConstrainedDynamics(Dynamics):
         thermostat=None,
         barostat=None,
         fixcom=False,
-        fixatoms=None,
+        fixatoms_dof=None,
         nmts=None,
         nsteps_geo=1,
         nsteps_o=1,
@@ -77,7 +77,7 @@ class ConstrainedDynamics(Dynamics):
                 motion will be constrained or not. Defaults to False.
         """
 
-        super(Dynamics, self).__init__(fixcom=fixcom, fixatoms=fixatoms)
+        super(Dynamics, self).__init__(fixcom=fixcom, fixatoms_dof=fixatoms_dof)
         self._dt = depend_value(name="dt", value=timestep)
 
         if thermostat is None:
-- 
2.43.0


From 37c4b5c549c925bc600f74a569bd42f510b3ca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:15 +0000
Subject: [PATCH 48/80] fix: an interruption could skip a step in the restart
 file

---
 ipi/engine/simulation.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ipi/engine/simulation.py b/ipi/engine/simulation.py
index ce4a3c9..e558de3 100644
--- a/ipi/engine/simulation.py
+++ b/ipi/engine/simulation.py
@@ -313,9 +313,9 @@ class Simulation:
         written out.
         """
 
-        if self.step < self.tsteps:
-            self.step += 1
         if not self.rollback:
+            if self.step < self.tsteps:
+                self.step += 1
             info(
                 " @simulation.softexit: Saving the latest status at the end of the step"
             )
@@ -363,7 +363,11 @@ class Simulation:
             # exit requests without screwing the trajectory
 
             steptime = -time.time()
-            if softexit.triggered or self.finished:
+            if softexit.triggered:
+                # keeps the status saved at the beginning of the last step
+                return
+
+            if self.finished:
                 break
 
             # save a consistent state of the simulation that will be saved as a RESTART file in case of premature (soft) exit
@@ -372,7 +376,11 @@ class Simulation:
 
             self.run_step(self.step)
 
-            if softexit.triggered or self.finished:
+            if softexit.triggered:
+                # the step may be incomplete: keeps the status saved at its beginning
+                return
+
+            if self.finished:
                 # Don't write if we are about to exit.
                 break
 
-- 
2.43.0


From 8209bf535accfc6465abc288eee775f521b7f06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:58 +0000
Subject: [PATCH 49/80] fix: constrained dynamics asked the forces for a method
 that no longer exists

---
 ipi/engine/motion/constrained_dynamics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/motion/constrained_dynamics.py b/ipi/engine/motion/constrained_dynamics.py
index 38157c1..644f1a4 100644
--- a/ipi/engine/motion/constrained_dynamics.py
+++ b/ipi/engine/motion/constrained_dynamics.py
@@ -137,11 +137,11 @@ class ConstrainedDynamics(Dynamics):
                 "Cannot simultaneously fix cell CoM and enforce Eckart constraints!"
             )
 
-        if fixatoms is None:
-            self.fixatoms = np.zeros(0, int)
+        if fixatoms_dof is None:
+            self.fixatoms_dof = np.zeros(0, int)
         else:
-            self.fixatoms = fixatoms
-        if len(self.fixatoms) > 0:
+            self.fixatoms_dof = fixatoms_dof
+        if len(self.fixatoms_dof) > 0:
             raise ValueError("Cannot fix atoms together with constrained MD")
 
         if csolver is None:
@@ -402,7 +402,7 @@ class NVEConstrainedIntegrator(ConstrainedIntegrator):
 
     def step_B(self, level=0):
         """Unconstrained B-step (momentum integration)"""
-        self.beads.p[0] += self.forces.forces_mts(level)[0] * self.pdt[level]
+        self.beads.p[0] += dstrip(self.forces.mts_forces[level].f)[0] * self.pdt[level]
 
     def step_Bc(self, level=0):
         """Unconstrained B-step (momentum integration)
-- 
2.43.0


From b544d34054649b769c224cce4193723762f8b05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:14 +0000
Subject: [PATCH 50/80] fix: replica exchange left the auxiliary momenta of GLE
 thermostats at a wrong temperature

---
 ipi/engine/smotion/remd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/smotion/remd.py b/ipi/engine/smotion/remd.py
index 8061c27..94c1f9e 100644
--- a/ipi/engine/smotion/remd.py
+++ b/ipi/engine/smotion/remd.py
@@ -165,8 +165,9 @@ class ReplicaExchange(Smotion):
                     )
 
                     # if we have GLE thermostats, we also have to exchange rescale the s!!!
-                    gle_scale(sl[i], (tj / ti))
-                    gle_scale(sl[j], (ti / tj))
+                    # (these are mass-scaled momenta, so they scale as the momenta do)
+                    gle_scale(sl[i], np.sqrt(tj / ti))
+                    gle_scale(sl[j], np.sqrt(ti / tj))
 
                     t_eval -= time.time()
                     # we just have to carry on with the swapped ensembles, but we also keep track of the changes in econs
-- 
2.43.0


From 7ca45b85e5451fdaafcf58ea421faddc347dd25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:34 +0000
Subject: [PATCH 51/80] fix: swaps of atoms ignored the bias and the springs of
 the ring polymer

---
 ipi/engine/motion/atomswap.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/ipi/engine/motion/atomswap.py b/ipi/engine/motion/atomswap.py
index 98570e4..2ab17b5 100644
--- a/ipi/engine/motion/atomswap.py
+++ b/ipi/engine/motion/atomswap.py
@@ -64,9 +64,6 @@ class AtomSwap(Motion):
 
         super(AtomSwap, self).bind(ens, beads, cell, bforce, nm, prng, omaker)
         self.ensemble.add_econs(self._ealc)
-        self.dbeads = self.beads.clone()
-        self.dcell = self.cell.clone()
-        self.dforces = self.forces.clone(self.dbeads, self.dcell)
 
     def AXlist(self, atomtype):
         """This compile a list of atoms ready for exchanges."""
@@ -100,9 +97,6 @@ class AtomSwap(Motion):
 
         # this would be double-counting, we already have a bail-out condition above
         # if (1.0/self.nxc < self.prng.u) : return  # tries a round of exhanges with probability 1/nmc
-        self.dcell.h = (
-            self.cell.h
-        )  # just in case the cell gets updated in the other motion classes
         for x in range(ntries):
             i = self.prng.integers(0, lenlist)
             j = self.prng.integers(0, lenlist)
@@ -113,24 +107,28 @@ class AtomSwap(Motion):
             i = axlist[i]
             j = axlist[j]
 
-            old_energy = self.forces.pot
+            # everything that depends on the positions counts: also the bias and,
+            # if the atoms have different masses, the springs of the ring polymer
+            old_energy = self.forces.pot + self.ensemble.bias.pot + self.nm.vspring
+            old_q = dstrip(self.beads.q).copy()
+            old_forces = self.forces.dump_state()
+
             # swap the atom positions
-            self.dbeads.q[:] = self.beads.q[:]
-            self.dbeads.q[:, 3 * i : 3 * i + 3] = self.beads.q[:, 3 * j : 3 * j + 3]
-            self.dbeads.q[:, 3 * j : 3 * j + 3] = self.beads.q[:, 3 * i : 3 * i + 3]
-            new_energy = self.dforces.pot
+            new_q = old_q.copy()
+            new_q[:, 3 * i : 3 * i + 3] = old_q[:, 3 * j : 3 * j + 3]
+            new_q[:, 3 * j : 3 * j + 3] = old_q[:, 3 * i : 3 * i + 3]
+            self.beads.q[:] = new_q
+            new_energy = self.forces.pot + self.ensemble.bias.pot + self.nm.vspring
             pexchange = np.exp(-betaP * (new_energy - old_energy))
 
-            # attemps the exchange, and actually propagate the exchange if something has happened
+            # attemps the exchange, and keeps it or goes back to where we were
             if pexchange > self.prng.u:
                 nexch += 1
-
-                # copy the exchanged beads position
-                self.beads.q[:] = self.dbeads.q[:]
-                # transfers the (already computed) status of the force, so we don't need to recompute
-                self.forces.transfer_forces(self.dforces)
-
                 self.ealc += -(new_energy - old_energy)
+            else:
+                self.beads.q[:] = old_q
+                # restores the (already computed) status of the force, so we don't need to recompute
+                self.forces.load_state(old_forces)
 
 
 dproperties(AtomSwap, ["ealc"])
-- 
2.43.0


From 49f096a9942e40c41c50ca4f0a347d7d2e2cb378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:34 +0000
Subject: [PATCH 52/80] fix: alchemical exchanges used the springs of closed
 paths for open paths

---
 ipi/engine/motion/alchemy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/motion/alchemy.py b/ipi/engine/motion/alchemy.py
index 3655f5c..a3eb497 100644
--- a/ipi/engine/motion/alchemy.py
+++ b/ipi/engine/motion/alchemy.py
@@ -95,13 +95,16 @@ class AlchemyMC(Motion):
         if lenlist == 0:
             raise ValueError("Atoms exchange list is empty in alchemical sampler.")
         atomspring = np.zeros(lenlist)
-        wk2 = dstrip(self.nm.omegak2)
 
         i = 0
         for atomnum in axlist:
             na3 = atomnum * 3
 
             # computes spring in NM representation
+            if atomnum in self.nm.open_paths:
+                wk2 = dstrip(self.nm.o_omegak) ** 2
+            else:
+                wk2 = dstrip(self.nm.omegak2)
             spr = 0.0
             for b in range(1, nb):
                 spr += wk2[b] * (self.nm.qnm[b, na3 : na3 + 3] ** 2).sum()
-- 
2.43.0


From e696e1155046884e8862306e8c44c66a5948d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:03 +0000
Subject: [PATCH 53/80] fix: PDB coordinates were read one column to the right
 of where they are written

---
 ipi/utils/io/backends/io_pdb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ipi/utils/io/backends/io_pdb.py b/ipi/utils/io/backends/io_pdb.py
index 45c0077..693aa31 100644
--- a/ipi/utils/io/backends/io_pdb.py
+++ b/ipi/utils/io/backends/io_pdb.py
@@ -34,7 +34,7 @@ def print_pdb_path(beads, cell, filedesc=sys.stdout, cell_conv=1.0, atoms_conv=1
 
     fmt_cryst = "CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f%s%4i\n"
     fmt_atom = (
-        "ATOM  %5i %4s%1s%3s %1s%4i%1s  %8.3f%8.3f%8.3f%6.2f%6.2f          %2s%2i\n"
+        "ATOM  %5i %4s%1s%3s %1s%4i%1s   %8.3f%8.3f%8.3f%6.2f%6.2f          %2s%2i\n"
     )
     fmt_conect = "CONECT%5i%5i\n"
 
@@ -182,9 +182,9 @@ def read_pdb(filedesc):
         name = body[12:16].strip()
         names.append(name)
         masses.append(Elements.mass(name))
-        x = float(body[31:39])
-        y = float(body[39:47])
-        z = float(body[47:55])
+        x = float(body[30:38])
+        y = float(body[38:46])
+        z = float(body[46:54])
         qatoms.append(x)
         qatoms.append(y)
         qatoms.append(z)
-- 
2.43.0


From 6312cae825a042aa10d1551e659120bf82bef372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:03 +0000
Subject: [PATCH 54/80] fix: an xyz frame that ends before its last atom was
 completed with zeros

---
 ipi/utils/io/backends/io_xyz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/io/backends/io_xyz.py b/ipi/utils/io/backends/io_xyz.py
index ffd2c60..4f85f9b 100644
--- a/ipi/utils/io/backends/io_xyz.py
+++ b/ipi/utils/io/backends/io_xyz.py
@@ -150,7 +150,7 @@ def read_xyz(filedesc):
         if atom_counter == natoms:
             break
 
-    if natoms != len(names):
+    if natoms != atom_counter:
         raise ValueError(
             "The number of atom records does not match the header of the xyz file."
         )
-- 
2.43.0


From 5b37712ca9a0222dd20aa7c0ac5ddbd4316b9c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:03 +0000
Subject: [PATCH 55/80] fix: atom labels longer than four characters were cut
 when read from xyz

---
 ipi/utils/io/backends/io_xyz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/io/backends/io_xyz.py b/ipi/utils/io/backends/io_xyz.py
index 4f85f9b..1d825a9 100644
--- a/ipi/utils/io/backends/io_xyz.py
+++ b/ipi/utils/io/backends/io_xyz.py
@@ -128,7 +128,7 @@ def read_xyz(filedesc):
     cell = h
 
     qatoms = np.zeros(3 * natoms)
-    names = np.zeros(natoms, dtype="|U4")
+    names = np.zeros(natoms, dtype="|U6")
     masses = np.zeros(natoms)
 
     # Extracting a time-frame information
-- 
2.43.0


From 32a5c5bb5ae0d0af34fef27058a87eb6c5dcd208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:03 +0000
Subject: [PATCH 56/80] fix: units of manually initialized positions, momenta
 and velocities were ignored

---
 ipi/engine/initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 5e7bb1c..cfd4c08 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -228,7 +228,7 @@ def init_vector(
         else:
             rq = init_beads(iif, nbeads).q
     elif mode == "manual":
-        rq = value
+        rq = value * unit_to_internal(dimension, units, 1.0)
 
     # determines the size of the input data
     if mode == "manual":
-- 
2.43.0


From 0ba6fc8c8f142415ab197ade94f8037d4d547b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:03 +0000
Subject: [PATCH 57/80] fix: momenta and velocities given for a single bead
 were rescaled as if given for the path

---
 ipi/engine/initializer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index cfd4c08..a4d605a 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -549,7 +549,8 @@ class Initializer:
                         )
                     simul.beads.resize(natoms, self.nbeads)
 
-                rp *= np.sqrt(self.nbeads / nbeads)
+                if v.bead < 0:  # rescales to the temperature of the path
+                    rp *= np.sqrt(self.nbeads / nbeads)
                 set_vector(v, simul.beads.p, rp)
                 fmom = True
             elif k == "velocities":
@@ -576,7 +577,8 @@ class Initializer:
                 else:
                     for ev in rv:
                         ev *= simul.beads.m3[0]
-                rv *= np.sqrt(self.nbeads / nbeads)
+                if v.bead < 0:  # rescales to the temperature of the path
+                    rv *= np.sqrt(self.nbeads / nbeads)
                 set_vector(v, simul.beads.p, rv)
                 fmom = True
             elif k == "gle":
-- 
2.43.0


From f2c0a826ba190630e753ea2fe036f10d95bca3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:03 +0000
Subject: [PATCH 58/80] fix: initializing velocities before the masses erased
 the positions

---
 ipi/engine/initializer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index a4d605a..1a67fe4 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -563,10 +563,9 @@ class Initializer:
 
                 # checks if we must initialize the simulation beads
                 if simul.beads.nbeads == 0 or not fmass:
-                    ValueError(
+                    raise ValueError(
                         "Cannot initialize velocities before the masses of the atoms are known"
                     )
-                    simul.beads.resize(natoms, self.nbeads)
 
                 warning(
                     "Initializing from velocities uses the previously defined masses -- not the masses inferred from the file -- to build momenta",
-- 
2.43.0


From ed2b111d45941c24a53145060f7032e02a73f382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:03 +0000
Subject: [PATCH 59/80] fix: velocities initialized from a checkpoint were
 taken from its positions

---
 ipi/engine/initializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 1a67fe4..d6de6a6 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -225,6 +225,9 @@ def init_vector(
     elif mode == "chk":
         if momenta:
             rq = init_beads(iif, nbeads).p
+        elif dimension == "velocity":
+            rbeads = init_beads(iif, nbeads)
+            rq = rbeads.p / rbeads.m3
         else:
             rq = init_beads(iif, nbeads).q
     elif mode == "manual":
-- 
2.43.0


From 677f5b3ec44b384327dae253ee6fbb04de413528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:58 +0000
Subject: [PATCH 60/80] fix: units with other characters than letters (m/s,
 ev/ang) were ignored when reading a trajectory

---
 ipi/utils/io/io_units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/io/io_units.py b/ipi/utils/io/io_units.py
index aece708..3e15e68 100755
--- a/ipi/utils/io/io_units.py
+++ b/ipi/utils/io/io_units.py
@@ -17,7 +17,7 @@ __all__ = ["auto_units", "process_units"]
 cell_unit_re = re.compile(r"cell\{([A-Za-z_]*)\}")  # cell unit pattern
 traj_dict = Traj().traj_dict  # trajectory dictionary
 traj_re = [
-    re.compile("%s%s" % (key, r"\{[A-Za-z_]*\}")) for key in list(traj_dict.keys())
+    re.compile("%s%s" % (key, r"\{[^{}]*\}")) for key in list(traj_dict.keys())
 ]  # trajectory patterns
 
 
-- 
2.43.0


From 7af0e111fd08fb0f47f3e1c5bfc9d6165a0e1bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:26 +0000
Subject: [PATCH 61/80] fix: the fermionic sign was 0/0 when the exchange
 weights underflow

---
 ipi/utils/exchange.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/ipi/utils/exchange.py b/ipi/utils/exchange.py
index 485e665..ae65f84 100644
--- a/ipi/utils/exchange.py
+++ b/ipi/utils/exchange.py
@@ -445,18 +445,18 @@ class ExchangePotential:
         The average permutation sign as defined in Eq. (9) https://doi.org/10.1063/5.0008720,
         which can be used to reweight observables to obtain fermionic statistics.
         """
-        return self._get_fermionic_potential_exp() / np.exp(
-            -self.betaP * self.prefix_V[-1]
-        )
+        return self._get_fermionic_weight_ratio()
 
-    def _get_fermionic_potential_exp(self):
+    def _get_fermionic_weight_ratio(self):
         """
         Exponential of the fermionic pseudo-potential defined by
-        the recurrence relation in Eq. (5) of https://doi.org/10.1063/5.0008720.
-        Numerically unstable since it does not use log-sum-exp trick, seeing that the
-        sum of exponentials could be negative.
+        the recurrence relation in Eq. (5) of https://doi.org/10.1063/5.0008720,
+        divided by that of the bosonic potential. The ratio is propagated, rather than
+        the exponentials, because these underflow easily and cannot be handled with the
+        log-sum-exp trick, seeing that the sum of exponentials could be negative.
         """
         xi = -1
+        prefix_V = dstrip(self.prefix_V)
         W = np.empty(self.nbosons + 1, float)
         W[0] = 1.0
 
@@ -465,7 +465,14 @@ class ExchangePotential:
             W[m] = (1.0 / m) * np.sum(
                 perm_sign
                 * W[:m]
-                * np.exp(-self.betaP * dstrip(self.cycle_energies)[:m, m - 1])
+                * np.exp(
+                    -self.betaP
+                    * (
+                        prefix_V[:m]
+                        + dstrip(self.cycle_energies)[:m, m - 1]
+                        - prefix_V[m]
+                    )
+                )
             )
 
         return W[-1]
-- 
2.43.0


From f87cdde4cd92ce9a56ee43702d221c059450100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:09 +0000
Subject: [PATCH 62/80] fix: output files inside a folder could not be backed
 up (the mark was put before the name of the folder)

---
 ipi/utils/io/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/utils/io/__init__.py b/ipi/utils/io/__init__.py
index b6efb56..3c3bfac 100644
--- a/ipi/utils/io/__init__.py
+++ b/ipi/utils/io/__init__.py
@@ -450,7 +450,8 @@ def open_backup(filename, mode="r", buffering=-1):
         i = 0
         fn_backup = filename
         while os.path.isfile(fn_backup):
-            fn_backup = "#" + filename + "#%i#" % i
+            path, name = os.path.split(filename)
+            fn_backup = os.path.join(path, "#" + name + "#%i#" % i)
             i += 1
 
         if fn_backup != filename:
-- 
2.43.0


From 561520bd1e67de1b438ded4c572209e77f1f8c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:01 +0000
Subject: [PATCH 63/80] fix: queued force requests waited for the slowest
 client although others were free (consolidated messages)

---
 ipi/interfaces/sockets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 64fdb83..922b132 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1685,6 +1685,11 @@ class InterfaceSocket(object):
                 for ijob in reversed(drop_ids):
                     del self.jobs[ijob]
 
+            # Requests are waiting: do not keep them until the slowest client
+            # has finished, but go and look for clients that can take them.
+            if any(r["status"] == "Queued" for r in self.requests):
+                break
+
     def _requeue_disconnected(self, r, c):
         """Puts a request back on the queue after its assigned client died.
 
-- 
2.43.0


From 33ec648a0a6689b8a4ae58bee8d4264a6b3b11be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:27 +0000
Subject: [PATCH 64/80] fix: a force request that timed out could be given out
 again while its dispatch thread was handing in the results

---
 ipi/interfaces/sockets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 922b132..50f7432 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1842,6 +1842,8 @@ class InterfaceSocket(object):
                 pass
             c.close()
             c.status = Status.Disconnected
+            # the dispatch thread may have received the results in the meanwhile
+            wait([ct])
             # client will be cleared in pool_update
             self._requeue_disconnected(r, c)
             return 0
-- 
2.43.0


From f625c5ea3194017657175f556121bbada5e91d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:41 +0000
Subject: [PATCH 65/80] fix: kinetic energy and stress of open paths used the
 mode masses of closed ones

With PA-CMD, WMAX-CMD or manual mode frequencies the dynamical masses of open
paths differ from those of closed ones. The propagator uses them, but the
kinetic energy and the kinetic stress did not, so that the conserved quantity
drifted.
---
 ipi/engine/normalmodes.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index 57f2742..c254c44 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -355,7 +355,7 @@ class NormalModes:
             name="kins",
             value=np.zeros(self.nbeads, float),
             func=self.get_kins,
-            dependencies=[self._pnm, self.beads._sm3, self._nm_factor],
+            dependencies=[self._pnm, self._dynm3],
         )
         self._kin = depend_value(
             name="kin", func=self.get_kin, dependencies=[self._kins]
@@ -364,7 +364,7 @@ class NormalModes:
             name="kstress",
             value=np.zeros((3, 3), float),
             func=self.get_kstress,
-            dependencies=[self._pnm, self.beads._sm3, self._nm_factor],
+            dependencies=[self._pnm, self._dynm3],
         )
 
         self._vspring_and_fspring = depend_value(
@@ -925,10 +925,8 @@ class NormalModes:
 
         """
         # include the partially adiabatic CMD mass scaling
-        pnm = dstrip(self.pnm) / dstrip(self.beads.sm3)
-        kmd = 0.5 * (pnm**2).sum(axis=1) / dstrip(self.nm_factor)
-
-        return kmd
+        # (which is different for open and closed paths)
+        return 0.5 * (dstrip(self.pnm) ** 2 / dstrip(self.dynm3)).sum(axis=1)
 
     def get_kin(self):
         """Gets the total MD kinetic energy.
@@ -953,9 +951,7 @@ class NormalModes:
         """
 
         # computes mass and nm_scaling-scaled momenta
-        spnm = (dstrip(self.pnm) / np.sqrt(dstrip(self.nm_factor)[:, None])) / dstrip(
-            self.beads.sm3
-        )
+        spnm = dstrip(self.pnm) / np.sqrt(dstrip(self.dynm3))
         spnm = spnm.reshape(-1, 3)  # reshape for quick outer product
         return spnm.T @ spnm
 
-- 
2.43.0


From 61f5ffa8683cb1ed7cb579f698fa9127242ea5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:54 +0000
Subject: [PATCH 66/80] fix: constrained-centroid dynamics propagated the path
 for too short a time with multiple time steps

The free ring-polymer step covers half of the innermost time step, but it was
applied only twice per step whatever the number of multiple time steps.
---
 ipi/engine/motion/dynamics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 8e00542..2b4f447 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -599,9 +599,10 @@ class NVTCCIntegrator(NVTIntegrator):
         self.pconstraints()
 
         # The centroid is constrained, so qcstep is skipped, but the internal
-        # ring-polymer modes still need the two half-step free propagations.
-        self.nm.free_qstep()
-        self.nm.free_qstep()
+        # ring-polymer modes still need the free propagation for a full time step
+        # (each free step covers half of the innermost time step).
+        for _ in range(2 * self.inmts):
+            self.nm.free_qstep()
 
         self.pstep()
         self.nm.pnm[0, :] = 0.0
-- 
2.43.0


From 3a483d40788b480ebff626b11013080a49863284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:54 +0000
Subject: [PATCH 67/80] fix: bias forces were left out of constrained-centroid
 dynamics

The bias is part of the conserved quantity but did not act on the atoms.
---
 ipi/engine/motion/dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 2b4f447..78f158b 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -579,9 +579,9 @@ class NVTCCIntegrator(NVTIntegrator):
 
         # propagates in NM coordinates
         self.nm.pnm += dstrip(self.nm.fnm) * (self.dt * 0.5)
-        # self.beads.p += dstrip(self.forces.f)*(self.dt*0.5)
         # also adds the bias force
-        # self.beads.p += dstrip(self.bias.f)*(self.dt*0.5)
+        if self.ensemble.has_bias:
+            self.beads.p += dstrip(self.bias.f) * (self.dt * 0.5)
 
     def step(self, step=None):
         """Does one simulation time step."""
-- 
2.43.0


From 01c7703bfef6ed8b1e0e472a973ae0d1d3806cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:33 +0000
Subject: [PATCH 68/80] fix: fast-forward Langevin gave NaN or froze atoms at
 rest

---
 ipi/engine/thermostats.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/ipi/engine/thermostats.py b/ipi/engine/thermostats.py
index d073d38..1407de1 100644
--- a/ipi/engine/thermostats.py
+++ b/ipi/engine/thermostats.py
@@ -1268,20 +1268,26 @@ class ThermoFFL(ThermoLangevin):
             # Soft flip
             p_old = np.reshape(p_old, (-1, 3))
             p_new = np.reshape(p, (-1, 3))
-            dotpr = hfunc(
-                np.sum(np.multiply(p_old, p_new), axis=1)
-                / np.sum(np.multiply(p_old, p_old), axis=1)
-            )
+            p_old2 = np.sum(np.multiply(p_old, p_old), axis=1)
+            # atoms at rest have no direction to keep
+            p_old2[p_old2 == 0.0] = 1.0
+            dotpr = hfunc(np.sum(np.multiply(p_old, p_new), axis=1) / p_old2)
             p += np.reshape(np.multiply(dotpr, p_old.T).T, len(p))
         elif self.flip == "hard":
             # Hard flip
-            p = np.multiply(p, np.sign(np.multiply(p, p_old)))
+            p = np.where(np.multiply(p, p_old) < 0.0, -p, p)
         elif self.flip == "rescale":
             # Rescale flip
             p_old = np.reshape(p_old, (-1, 3))
             p_new = np.reshape(p, (-1, 3))
-            scalfac = np.linalg.norm(p_new, axis=1) / np.linalg.norm(p_old, axis=1)
-            p = np.reshape(np.multiply(scalfac, p_old.T).T, len(p))
+            norm_old = np.linalg.norm(p_old, axis=1)
+            # atoms at rest have no direction to keep
+            atrest = norm_old == 0.0
+            norm_old[atrest] = 1.0
+            scalfac = np.linalg.norm(p_new, axis=1) / norm_old
+            p_resc = np.multiply(scalfac, p_old.T).T
+            p_resc[atrest] = p_new[atrest]
+            p = np.reshape(p_resc, len(p))
         # Otherwise we have chosen 'none', and we just don't do anything here
 
         # Accumulate conserved quantity
-- 
2.43.0


From 8fe824d7a9c4ec8d9bd2e3648f044a4c24033dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:51 +0000
Subject: [PATCH 69/80] fix: sign of the stochastic velocity rescaling factor
 used a threshold too large by sqrt(2)

---
 ipi/engine/thermostats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/thermostats.py b/ipi/engine/thermostats.py
index 1407de1..f57a006 100644
--- a/ipi/engine/thermostats.py
+++ b/ipi/engine/thermostats.py
@@ -522,7 +522,7 @@ class ThermoSVR(Thermostat):
             + 2.0 * r1 * np.sqrt(self.K / K * self.et * (1 - self.et))
         )
         alpha = np.sqrt(alpha2)
-        if (r1 + np.sqrt(2 * K / self.K * self.et / (1 - self.et))) < 0:
+        if (r1 + np.sqrt(K / self.K * self.et / (1 - self.et))) < 0:
             alpha *= -1
 
         self.ethermo += K * (1 - alpha2)
-- 
2.43.0


From c564949999de6ebc66a4af5fe21b660ca4506694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:08 +0000
Subject: [PATCH 70/80] fix: virial of the Suzuki-Chin force-squared term
 missed the change of the forces with strain

---
 ipi/engine/forces.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 9ac86b7..1867ea9 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -1454,6 +1454,15 @@ class Forces:
                 f_4th_order = 2.0 * (fminus - fplus) / 2.0 / delta
                 v_4th_order = 2.0 * (vminus - vplus) / 2.0 / delta
 
+        # the forces also scale with the inverse strain at fixed scaled positions,
+        # which adds a term to the derivative of the virial along the forces.
+        foverm = dstrip(self.f) / dstrip(self.beads.m3)
+        for b in range(self.nbeads):
+            v_4th_order[b] += 2.0 * np.dot(
+                foverm[b].reshape((self.natoms, 3)).T,
+                fbase[b].reshape((self.natoms, 3)),
+            )
+
         # returns the 4th order |f^2| correction.
         return [f_4th_order, v_4th_order]
 
-- 
2.43.0


From 0bae105f5728fbb2943eafe98440f1c4f2843a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:25 +0000
Subject: [PATCH 71/80] fix: anisotropic barostats moved the centroid wrongly
 for nearly equal diagonal cell velocities

---
 ipi/engine/barostats.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 4391dd4..a5ac625 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -1133,8 +1133,10 @@ class BaroRGB(Barostat):
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
         # check eigen vector exists: v is upper triangular, so its eigenvalues are
-        # the diagonal entries and it may be defective when they are degenerate
-        if len(np.unique(v.diagonal())) < 3:
+        # the diagonal entries and it may be (nearly) defective when they are
+        # (nearly) degenerate
+        gaps = np.diff(np.sort(v.diagonal()))
+        if np.any(gaps <= 1e-4 * np.abs(v).max()):
             # compute sinhv/v by directly taylor, if eigen vector not exists
             sinh = halfdt * mat_taylor(v * halfdt, function="sinhx/x")
         else:
@@ -1440,8 +1442,10 @@ class BaroMTK(Barostat):
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
         # check eigen vector exists: v is upper triangular, so its eigenvalues are
-        # the diagonal entries and it may be defective when they are degenerate
-        if len(np.unique(v.diagonal())) < 3:
+        # the diagonal entries and it may be (nearly) defective when they are
+        # (nearly) degenerate
+        gaps = np.diff(np.sort(v.diagonal()))
+        if np.any(gaps <= 1e-4 * np.abs(v).max()):
             # compute sinhv/v by directly taylor, if eigen vector not exists
             sinh = halfdt * mat_taylor(v * halfdt, function="sinhx/x")
         else:
-- 
2.43.0


From 38d4c3aeab9bd0a808e4a32691dd50cca3cd167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:55 +0000
Subject: [PATCH 72/80] fix: replica exchange skipped the barostats inside a
 multi-motion

---
 ipi/engine/smotion/remd.py | 61 ++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/ipi/engine/smotion/remd.py b/ipi/engine/smotion/remd.py
index 94c1f9e..02b7230 100644
--- a/ipi/engine/smotion/remd.py
+++ b/ipi/engine/smotion/remd.py
@@ -44,6 +44,14 @@ def motion_scale(motion, scale):
         thermo_scale(motion.barostat.thermostat, scale)
 
 
+def motion_barostats(motion):
+    """Lists the barostats of a motion class, looking also inside multi-motion."""
+
+    if hasattr(motion, "mlist"):
+        return [b for m in motion.mlist for b in motion_barostats(m)]
+    return [motion.barostat] if hasattr(motion, "barostat") else []
+
+
 def gle_scale(sys, scale):
     motion_scale(sys.motion, scale)
 
@@ -121,6 +129,11 @@ class ReplicaExchange(Smotion):
                 pensj = sl[j].ensemble.lpens
                 t_eval += time.time()
 
+                # barostats may also be hidden inside a multi-motion
+                barostats = list(
+                    zip(motion_barostats(sl[i].motion), motion_barostats(sl[j].motion))
+                )
+
                 t_swap -= time.time()
                 ensemble_swap(
                     sl[i].ensemble, sl[j].ensemble
@@ -132,23 +145,25 @@ class ReplicaExchange(Smotion):
                     # also rescales the velocities -- should do the same with cell velocities
                     sl[i].beads.p *= np.sqrt(tj / ti)
                     sl[j].beads.p *= np.sqrt(ti / tj)
-                    try:  # if motion has a barostat, and barostat has a momentum, does the swap
-                        # also note that the barostat has a hidden T dependence inside the mass, so
-                        # as a matter of fact <p^2> \propto T^2
-                        sl[i].motion.barostat.p *= tj / ti
-                        sl[j].motion.barostat.p *= ti / tj
+                    for bi, bj in barostats:
+                        try:  # if motion has a barostat, and barostat has a momentum, does the swap
+                            # also note that the barostat has a hidden T dependence inside the mass, so
+                            # as a matter of fact <p^2> \propto T^2
+                            bi.p *= tj / ti
+                            bj.p *= ti / tj
+                        except AttributeError:
+                            pass
+
+                for bi, bj in barostats:
+                    try:  # if motion has a barostat, and the barostat has a reference cell, does the swap
+                        # as that when there are very different pressures, the cell should reflect the
+                        # pressure/temperature dependence. this also changes the barostat conserved quantities
+                        bjh = dstrip(bj.h0.h).copy()
+                        bj.h0.h[:] = bi.h0.h[:]
+                        bi.h0.h[:] = bjh
                     except AttributeError:
                         pass
 
-                try:  # if motion has a barostat, and the barostat has a reference cell, does the swap
-                    # as that when there are very different pressures, the cell should reflect the
-                    # pressure/temperature dependence. this also changes the barostat conserved quantities
-                    bjh = dstrip(sl[j].motion.barostat.h0.h).copy()
-                    sl[j].motion.barostat.h0.h[:] = sl[i].motion.barostat.h0.h[:]
-                    sl[i].motion.barostat.h0.h[:] = bjh
-                except AttributeError:
-                    pass
-
                 t_swap += time.time()
 
                 t_eval -= time.time()
@@ -189,17 +204,19 @@ class ReplicaExchange(Smotion):
                     if self.rescalekin:
                         sl[i].beads.p *= np.sqrt(ti / tj)
                         sl[j].beads.p *= np.sqrt(tj / ti)
+                        for bi, bj in barostats:
+                            try:
+                                bi.p *= ti / tj
+                                bj.p *= tj / ti
+                            except AttributeError:
+                                pass
+                    for bi, bj in barostats:
                         try:
-                            sl[i].motion.barostat.p *= ti / tj
-                            sl[j].motion.barostat.p *= tj / ti
+                            bjh = dstrip(bj.h0.h).copy()
+                            bj.h0.h[:] = bi.h0.h[:]
+                            bi.h0.h[:] = bjh
                         except AttributeError:
                             pass
-                    try:
-                        bjh = dstrip(sl[j].motion.barostat.h0.h).copy()
-                        sl[j].motion.barostat.h0.h[:] = sl[i].motion.barostat.h0.h[:]
-                        sl[i].motion.barostat.h0.h[:] = bjh
-                    except AttributeError:
-                        pass
 
                     t_swap += time.time()
                     info(
-- 
2.43.0


From f886ceccecf19dc684c100fd9f9799fd0c5c28c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:47 +0000
Subject: [PATCH 73/80] fix: mode temperatures with fixed atoms and fixed
 centroid, and fixed atoms without ensemble type

---
 ipi/engine/properties.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 0ad3abd..1852102 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1162,11 +1162,13 @@ class Properties:
                 dof_ids = np.concatenate(
                     (atom_ids * 3, atom_ids * 3 + 1, atom_ids * 3 + 2)
                 )
-                eff_nbeads = (
-                    self.beads.nbeads - 1  # prevent double counting
-                    if self.motion.enstype == "nvt-cc"
-                    else self.beads.nbeads
-                )
+                eff_nbeads = self.beads.nbeads
+                # prevent double counting of the fixed centroid
+                if getattr(self.motion, "enstype", "") == "nvt-cc":
+                    if nm == "":
+                        eff_nbeads -= 1
+                    elif int(nm) == 0:
+                        eff_nbeads = 0
                 eff_number_fixed_dof += np.sum(flags[dof_ids]) * eff_nbeads
 
             kemd += (
-- 
2.43.0


From 8e8a7e1158ce089d7948c8a7581d10fd4297eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:43 +0000
Subject: [PATCH 74/80] fix: Suzuki-Chin scaled-coordinates estimators used the
 initial masses

---
 ipi/engine/properties.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 1852102..98cf464 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -2156,6 +2156,7 @@ class Properties:
         beta = 1.0 / (Constants.kb * self.ensemble.temp)
         self.dforces.omegan2 = self.forces.omegan2
         self.dforces.alpha = self.forces.alpha
+        self.dbeads.m[:] = self.beads.m  # may change, e.g. in alchemical exchanges
         self.dcell.h = self.cell.h
 
         qc = dstrip(self.beads.qc)
-- 
2.43.0


From 8935f8150b858d33f96ae97defb34c8f32397445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:05 +0000
Subject: [PATCH 75/80] fix: np.array and np.copy of a dependency array
 returned an alias of its storage

---
 ipi/utils/depend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index fd9d3ca..0984865 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -336,13 +336,13 @@ class depend_array(depend_base):
     def __array__(self, dtype=None, copy=None):
         """Lets np.asarray / np.* accept us transparently.
 
-        Zero-copy fast path when the dtype matches.
+        Zero-copy fast path when the dtype matches and no copy is asked for.
         """
         if self._tainted[0]:
             self._refresh()
         v = self._value
         if dtype is None or dtype == v.dtype:
-            return v
+            return v.copy() if copy else v
         return v.astype(dtype)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
-- 
2.43.0


From e8a793aaa956c15f90afe36e39414d835c3b4071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:38 +0000
Subject: [PATCH 76/80] fix: restart files with fft_threads or fft_float32 set
 were not valid XML

---
 ipi/inputs/normalmodes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ipi/inputs/normalmodes.py b/ipi/inputs/normalmodes.py
index 4742540..e1fd6a3 100644
--- a/ipi/inputs/normalmodes.py
+++ b/ipi/inputs/normalmodes.py
@@ -159,21 +159,19 @@ class InputNormalModes(Input):
             },
         ),
         "fft_threads": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": int,
                 "default": 1,
                 "help": "The number of threads to be used for the FFT.",
-                "dimension": None,
             },
         ),
         "fft_float32": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": bool,
                 "default": False,
                 "help": "Whether to use single precision FFT.",
-                "dimension": None,
             },
         ),
     }
-- 
2.43.0


From e96dd0ca4b872e1b2477b52592fd5a63b225976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:38 +0000
Subject: [PATCH 77/80] fix: keep the remaining settings of scp, planetary and
 al-kmc motions in restart files

---
 ipi/inputs/motion/al6xxx_kmc.py | 1 +
 ipi/inputs/motion/planetary.py  | 1 +
 ipi/inputs/motion/scphonons.py  | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/ipi/inputs/motion/al6xxx_kmc.py b/ipi/inputs/motion/al6xxx_kmc.py
index 7e73afc..a7b322f 100644
--- a/ipi/inputs/motion/al6xxx_kmc.py
+++ b/ipi/inputs/motion/al6xxx_kmc.py
@@ -226,6 +226,7 @@ class InputAlKMC(InputDictionary):
         self.nmg.store(kmc.nmg)
         self.nsi.store(kmc.nsi)
         self.ncell.store(kmc.ncell)
+        self.neval.store(kmc.neval)
         self.nstep.store(kmc.nstep)
         self.diffusion_barrier_al.store(kmc.diffusion_barrier_al)
         self.diffusion_prefactor_al.store(kmc.diffusion_prefactor_al)
diff --git a/ipi/inputs/motion/planetary.py b/ipi/inputs/motion/planetary.py
index 5a15ccd..6d2c440 100644
--- a/ipi/inputs/motion/planetary.py
+++ b/ipi/inputs/motion/planetary.py
@@ -133,6 +133,7 @@ class InputPlanetary(InputDictionary):
         self.nmts.store(plan.ccdyn.nmts)
         self.nsamples.store(plan.nsamples)
         self.stride.store(plan.stride)
+        self.nbeads.store(plan.nbeads)
         self.screen.store(plan.screen)
 
     def fetch(self):
diff --git a/ipi/inputs/motion/scphonons.py b/ipi/inputs/motion/scphonons.py
index 093093c..48d1c44 100644
--- a/ipi/inputs/motion/scphonons.py
+++ b/ipi/inputs/motion/scphonons.py
@@ -177,6 +177,9 @@ class InputSCPhonons(InputDictionary):
         self.max_steps.store(phonons.max_steps)
         self.max_iter.store(phonons.max_iter)
         self.tau.store(phonons.tau)
+        self.wthreshold.store(phonons.wthreshold)
+        self.precheck.store(phonons.precheck)
+        self.checkweights.store(phonons.checkweights)
         self.chop.store(phonons.chop)
         self.random_type.store(phonons.random_type)
         self.displace_mode.store(phonons.displace_mode)
-- 
2.43.0


From aec992090f4769ddda54c4c58ed32d5e2a866c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:38 +0000
Subject: [PATCH 78/80] fix: ffcavphsocket ignored max_workers,
 consolidate_messages and batch_size

---
 ipi/inputs/forcefields.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/inputs/forcefields.py b/ipi/inputs/forcefields.py
index a285c3f..c5dac48 100644
--- a/ipi/inputs/forcefields.py
+++ b/ipi/inputs/forcefields.py
@@ -1322,7 +1322,10 @@ class InputFFCavPhSocket(InputFFSocket):
                 mode=self.mode.fetch(),
                 timeout=self.timeout.fetch(),
                 match_mode=self.matching.fetch(),
+                max_workers=self.max_workers.fetch(),
                 exit_on_disconnect=self.exit_on_disconnect.fetch(),
+                consolidate_messages=self.consolidate_messages.fetch(),
+                batch_size=self.batch_size.fetch(),
             ),
             charge_array=self.charge_array.fetch(),
             apply_photon=self.apply_photon.fetch(),
-- 
2.43.0


From 42e8050b72e650619e754333858351f5ffe38c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:06 +0000
Subject: [PATCH 79/80] fix: ffdirect ignored the list of active atoms given in
 the input

---
 ipi/inputs/forcefields.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipi/inputs/forcefields.py b/ipi/inputs/forcefields.py
index c5dac48..4b4466a 100644
--- a/ipi/inputs/forcefields.py
+++ b/ipi/inputs/forcefields.py
@@ -444,6 +444,7 @@ class InputFFDirect(InputForceField):
             latency=self.latency.fetch(),
             offset=self.offset.fetch(),
             dopbc=self.pbc.fetch(),
+            active=self.activelist.fetch(),
             threaded=self.threaded.fetch(),
             pes=self.pes.fetch(),
             pes_path=self.pes_path.fetch(),
-- 
2.43.0


From 7408f9a4fb825fbeb8ab38162e810bf432f3d13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:38 +0000
Subject: [PATCH 80/80] fix: restart files with n_threads set for the random
 numbers were not valid XML

---
 ipi/inputs/prng.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/inputs/prng.py b/ipi/inputs/prng.py
index 5a66027..54d42d2 100644
--- a/ipi/inputs/prng.py
+++ b/ipi/inputs/prng.py
@@ -34,7 +34,7 @@ class InputRandom(Input):
 
     attribs = {
         "n_threads": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": int,
                 "default": 1,
-- 
2.43.0

