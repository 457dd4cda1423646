From 322bd501baeb9c165f7e44bf83b95d0b43c997b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:24 +0000
Subject: [PATCH 01/66] fix: optimiser starts from the lowest-score agent and
 can pick every agent and control

---
 freegs/optimiser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index f36910c..e898217 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -66,7 +66,7 @@ def pickUnique(N, m, e):
     others = []  # The list of three agents
     for i in range(m):
         high = N - 1 - i - len(e)
-        newind = random.randint(0, high) if high > 0 else 0
+        newind = random.randint(0, high + 1)  # Note: Upper limit is exclusive
         
         for ind in inds:
             if newind == ind:
@@ -122,14 +122,14 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
 
     assert N >= 4
 
-    best = (measure(obj), obj)  # Highest score, candidate solution (agent)
+    best = (measure(obj), obj)  # Lowest score, candidate solution (agent)
     population = [best]  # List of (score, agent)
 
     for i in range(N - 1):
         agent = mutate(obj, controls)
         score_agent = (measure(agent), agent)
         population.append(score_agent)
-        if score_agent[0] > best[0]:
+        if score_agent[0] < best[0]:
             best = score_agent
 
     for generation in range(maxgen):
@@ -139,7 +139,7 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
             others = [population[index][1] for index in pickUnique(N, 3, [ai])]
 
             new_obj = copy.deepcopy(agent[1])
-            R = random.randint(0, len(controls) - 1)  # Pick a random control to modify
+            R = random.randint(0, len(controls))  # Pick a random control to modify
             for i, control in enumerate(controls):
                 if i == R or random.random() < CR:
                     control.set(
-- 
2.43.0


From b6f3dc89ebbaa532691eda4a0fd66c023b4554b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:38 +0000
Subject: [PATCH 02/66] fix: honour zero coil position limits, and
 max_coil_force with circuits

---
 freegs/optimise.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/freegs/optimise.py b/freegs/optimise.py
index b321b33..a7ee6ab 100644
--- a/freegs/optimise.py
+++ b/freegs/optimise.py
@@ -41,8 +41,21 @@ def max_abs_coil_current(eq):
 
 
 def max_coil_force(eq):
+    """
+    Given an equilibrium, return the maximum force on any coil,
+    including the coils inside circuits
+    """
+
+    def flatten(forces):
+        for force in forces.values():
+            if isinstance(force, dict):
+                # A Circuit, containing a dictionary of forces
+                yield from flatten(force)
+            else:
+                yield force
+
     forces = eq.tokamak.getForces()  # dictionary
-    return max(sqrt(force[0] ** 2 + force[1] ** 2) for force in forces.values())
+    return max(sqrt(force[0] ** 2 + force[1] ** 2) for force in flatten(forces))
 
 
 def no_wall_intersection(eq):
@@ -96,9 +109,9 @@ class CoilRadius:
         self.maximum = maximum
 
     def set(self, eq, R):
-        if self.minimum and (R < self.minimum):
+        if self.minimum is not None and (R < self.minimum):
             R = self.minimum
-        if self.maximum and (R > self.maximum):
+        if self.maximum is not None and (R > self.maximum):
             R = self.maximum
         eq.tokamak[self.label].R = R
 
@@ -120,9 +133,9 @@ class CoilHeight:
         self.maximum = maximum
 
     def set(self, eq, Z):
-        if self.minimum and (Z < self.minimum):
+        if self.minimum is not None and (Z < self.minimum):
             Z = self.minimum
-        if self.maximum and (Z > self.maximum):
+        if self.maximum is not None and (Z > self.maximum):
             Z = self.maximum
         eq.tokamak[self.label].Z = Z
 
-- 
2.43.0


From 23eff886b9bea078666fa18130af8c28b6f9f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 03/66] fix: exclude a coil's own field from the force on coils
 inside circuits

---
 freegs/machine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 807ab4f..0c4de3e 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -159,9 +159,10 @@ class Circuit:
         """
         Calculate radial magnetic field Br at (R,Z)
         """
+        # Note: Coil currents are not reset here, because Coil.getForces
+        # temporarily sets its current to zero to calculate the external field
         result = 0.0
         for label, coil, multiplier in self.coils:
-            coil.current = self.current * multiplier
             result += coil.Br(R, Z)
         return result
 
@@ -169,9 +170,10 @@ class Circuit:
         """
         Calculate vertical magnetic field Bz at (R,Z)
         """
+        # Note: Coil currents are not reset here, because Coil.getForces
+        # temporarily sets its current to zero to calculate the external field
         result = 0.0
         for label, coil, multiplier in self.coils:
-            coil.current = self.current * multiplier
             result += coil.Bz(R, Z)
         return result
 
-- 
2.43.0


From 1599bdf5d2643aa959d61ca07b53d9a4ff9313b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:58 +0000
Subject: [PATCH 04/66] fix: MirroredCoil places the lower coil at -Z and keeps
 the given current and control

---
 freegs/machine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 0c4de3e..4805c7e 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -309,10 +309,12 @@ def MirroredCoil(
             ),
             (
                 "L",
-                Coil(R, Z, current=current, turns=turns, control=control, area=area),
+                Coil(R, -Z, current=current, turns=turns, control=control, area=area),
                 1.0 if symmetric else -1.0,
             ),
-        ]
+        ],
+        current=current,
+        control=control,
     )
 
 
-- 
2.43.0


From 074db920d1714015286908785629625027dfba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:44 +0000
Subject: [PATCH 05/66] fix: MultiCoil turns, equality, restoring from array
 and aliasing of input lists

---
 freegs/multi_coil.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 6614ac6..cf4069d 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -126,8 +126,9 @@ class MultiCoil(Coil):
         # Store locations as an internal list
         if hasattr(R, "__len__"):
             assert len(R) == len(Z)
-            self.Rfil = R
-            self.Zfil = Z
+            # Copy, so that moving the coil doesn't modify the input
+            self.Rfil = list(R)
+            self.Zfil = list(Z)
             self.turns = len(R)
         else:
             # Assume a single R, Z. Turn into a list
@@ -145,6 +146,13 @@ class MultiCoil(Coil):
         self._R_centre = np.mean(self.Rfil)
         self._Z_centre = np.mean(self.Zfil)
 
+    def _turns_per_filament(self):
+        """
+        Number of turns represented by each filament, so that
+        the total current in the block is current * turns
+        """
+        return self.turns / len(self.Rfil)
+
     def controlPsi(self, R, Z):
         """
         Calculate poloidal flux at (R,Z) due to a unit current
@@ -157,7 +165,7 @@ class MultiCoil(Coil):
         if self.mirror:
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += Greens(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * self._turns_per_filament()
 
     def controlBr(self, R, Z):
         """
@@ -170,7 +178,7 @@ class MultiCoil(Coil):
         if self.mirror:  # Mirror coil(s) in Z, creating circuit
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += GreensBr(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * self._turns_per_filament()
 
     def controlBz(self, R, Z):
         """
@@ -183,7 +191,7 @@ class MultiCoil(Coil):
         if self.mirror:  # Mirror coil(s) in Z, creating circuit
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += GreensBz(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * self._turns_per_filament()
 
     def __repr__(self):
         return "MultiCoil(R={0}, Z={1}, current={2:.1f}, turns={3}, control={4}, mirror={5}, polarity={6})".format(
@@ -198,11 +206,13 @@ class MultiCoil(Coil):
 
     def __eq__(self, other):
         return (
-            self.R == other.R
-            and self.Z == other.Z
+            list(self.Rfil) == list(other.Rfil)
+            and list(self.Zfil) == list(other.Zfil)
             and self.current == other.current
             and self.turns == other.turns
             and self.control == other.control
+            and self.mirror == other.mirror
+            and list(self.polarity) == list(other.polarity)
         )
 
     def __ne__(self, other):
@@ -243,12 +253,17 @@ class MultiCoil(Coil):
                 )
             )
         RZlen = value["RZlen"]
-        R = value["R"][:RZlen]
-        Z = value["Z"][:RZlen]
+        if RZlen == 1:
+            # A single point, which can have more than one turn
+            R = value["R"][0]
+            Z = value["Z"][0]
+        else:
+            R = value["R"][:RZlen]
+            Z = value["Z"][:RZlen]
         current = value["current"]
         turns = value["turns"]
         control = value["control"]
-        mirror = value["npoints"]
+        mirror = value["mirror"]
         polarity = value["polarity"]
 
         return MultiCoil(
-- 
2.43.0


From bb52814bd75281eb300a4571235293673402cf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:55 +0000
Subject: [PATCH 06/66] fix: PreCalcCoil total current is current * turns

---
 freegs/pre_calc_coil.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/freegs/pre_calc_coil.py b/freegs/pre_calc_coil.py
index 7b6952b..017cb3f 100644
--- a/freegs/pre_calc_coil.py
+++ b/freegs/pre_calc_coil.py
@@ -128,7 +128,8 @@ class PreCalcCoil(Coil):
         else:
             result = self.cPsi(R, Z, grid=False)
 
-        return result
+        # Maps are for 1 A-turn; toroidal current is current * turns
+        return result * self.turns
 
     def controlBr(self, R, Z):
         """
@@ -140,7 +141,8 @@ class PreCalcCoil(Coil):
         else:
             result = self.cBr(R, Z, grid=False)
 
-        return result
+        # Maps are for 1 A-turn; toroidal current is current * turns
+        return result * self.turns
 
     def controlBz(self, R, Z):
         """
@@ -152,7 +154,8 @@ class PreCalcCoil(Coil):
         else:
             result = self.cBz(R, Z, grid=False)
 
-        return result
+        # Maps are for 1 A-turn; toroidal current is current * turns
+        return result * self.turns
 
     def __repr__(self):
         return "PreCalcCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
-- 
2.43.0


From 663182b51b987ba6e49f3a26b81254a34e52d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:47 +0000
Subject: [PATCH 07/66] fix: Rogowski sensors measure the total toroidal
 current (turns, solenoids, mirrored blocks)

---
 freegs/machine.py    | 23 +++++++++++++++++++++--
 freegs/multi_coil.py | 14 ++++++++++++++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 4805c7e..da4d3e3 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -216,7 +216,11 @@ class Circuit:
         return forces
 
     def inShape(self, polygon):
-        return sum(coil.inShape(polygon)*multiplier for label, coil, multiplier in self.coils)
+        # Note: Coils in the circuit can have different numbers of turns
+        return sum(
+            coil.inShape(polygon) * getattr(coil, "turns", 1) * multiplier
+            for label, coil, multiplier in self.coils
+        )
 
     def __repr__(self):
         result = "Circuit(["
@@ -426,6 +430,16 @@ class Solenoid:
         """
         return {}
 
+    def inShape(self, polygon):
+        """
+        Number of turns inside the polygon
+        """
+        return sum(
+            1
+            for Zs in np.linspace(self.Zsmin, self.Zsmax, self.Ns)
+            if polygon.contains(Point(self.Rs, Zs))
+        )
+
     def __repr__(self):
         return "Solenoid(Rs={0}, Zsmin={1}, Zsmax={2}, current={3}, Ns={4}, control={5})".format(
             self.Rs, self.Zsmin, self.Zsmax, self.current, self.Ns, self.control
@@ -542,7 +556,12 @@ class RogowskiSensor(Sensor):
             # coil current
             coil_current = 0
             for label, coil in tokamak.coils:
-                coil_current += coil.inShape(self.polygon) * coil.current
+                # Total toroidal current is current * turns
+                coil_current += (
+                    coil.inShape(self.polygon)
+                    * getattr(coil, "turns", 1)
+                    * coil.current
+                )
 
             # plasma current
             plasma_current = 0
diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index cf4069d..ad217ef 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -23,6 +23,7 @@ along with FreeGS.  If not, see <http://www.gnu.org/licenses/>.
 """
 
 import numpy as np
+from shapely.geometry import Point
 from .coil import Coil, AreaCurrentLimit
 from .gradshafranov import Greens, GreensBr, GreensBz
 
@@ -193,6 +194,19 @@ class MultiCoil(Coil):
                 result += GreensBz(R_fil, -Z_fil, R, Z) * self.polarity[1]
         return result * self._turns_per_filament()
 
+    def inShape(self, polygon):
+        """
+        Fraction of the turns inside the polygon, counting the mirrored
+        block and the direction (polarity) of the current in each block
+        """
+        result = 0.0
+        for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
+            if polygon.contains(Point(R_fil, Z_fil)):
+                result += self.polarity[0]
+            if self.mirror and polygon.contains(Point(R_fil, -Z_fil)):
+                result += self.polarity[1]
+        return result / len(self.Rfil)
+
     def __repr__(self):
         return "MultiCoil(R={0}, Z={1}, current={2:.1f}, turns={3}, control={4}, mirror={5}, polarity={6})".format(
             self.Rfil,
-- 
2.43.0


From 26d01354818d863616bcd16ca0e2e9af05563509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:58 +0000
Subject: [PATCH 08/66] fix: sensors which are switched off have no
 measurement, rather than no attribute

---
 freegs/machine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index da4d3e3..33e98ce 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -515,9 +515,7 @@ class Sensor:
         self.name = name
         self.weight = weight
 
-        if self.status:
-            self.measurement = measurement
-
+        self.measurement = measurement if self.status else None
 
     def __repr__(self):
         return "R={R}, Z={Z}".format(R=self.R, Z=self.Z)
-- 
2.43.0


From 762f14cc164fcf7aeefc17de78a8997f286a5c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:09 +0000
Subject: [PATCH 09/66] fix: moving a shaped coil moves its outline as well as
 its filaments

---
 freegs/filament_coil.py | 2 ++
 freegs/pre_calc_coil.py | 2 ++
 freegs/shaped_coil.py   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 2df7d1e..1453185 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -326,6 +326,7 @@ class FilamentCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self.points = [(r + Rshift, z) for r, z in self.points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -340,6 +341,7 @@ class FilamentCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self.points = [(r, z + Zshift) for r, z in self.points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
diff --git a/freegs/pre_calc_coil.py b/freegs/pre_calc_coil.py
index 017cb3f..a435a6c 100644
--- a/freegs/pre_calc_coil.py
+++ b/freegs/pre_calc_coil.py
@@ -174,6 +174,7 @@ class PreCalcCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self._points = [(r + Rshift, z) for r, z in self._points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -188,6 +189,7 @@ class PreCalcCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self._points = [(r, z + Zshift) for r, z in self._points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
diff --git a/freegs/shaped_coil.py b/freegs/shaped_coil.py
index ba876b8..f5a56a3 100644
--- a/freegs/shaped_coil.py
+++ b/freegs/shaped_coil.py
@@ -145,6 +145,7 @@ class ShapedCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self._points = [(r + Rshift, z, w) for r, z, w in self._points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -159,6 +160,7 @@ class ShapedCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self._points = [(r, z + Zshift, w) for r, z, w in self._points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
-- 
2.43.0


From 1bc66f6ea718bd5f67b4bf7681ac1a6ee40055e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:46 +0000
Subject: [PATCH 10/66] fix: restore circuits whose first coil has a zero
 multiplier

---
 freegs/machine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 33e98ce..20d10a1 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -272,13 +272,15 @@ class Circuit:
                 return s  # Probably already a string
 
         # Use the current/control values from the first coil in the circuit
-        # Should be consistent!
+        # which is connected (multiplier is not zero). Should be consistent!
+        first = next((v for v in value if v["multiplier"] != 0.0), None)
+        current = 0.0 if first is None else first["coil"]["current"] / first["multiplier"]
         return Circuit(
             [
                 (toString(label), Coil(*coil), multiplier)
                 for label, coil, multiplier in value
             ],
-            current=value[0][1]["current"] / value[0]["multiplier"],
+            current=current,
             control=value[0][1]["control"],
         )
 
-- 
2.43.0


From cb801293aee9fb8f77c863a4ee68dfc5a83ede77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:57 +0000
Subject: [PATCH 11/66] fix: centre of a FilamentCoil without a shape counted
 one corner twice

---
 freegs/filament_coil.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 1453185..3b62cfd 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -240,7 +240,6 @@ class FilamentCoil(Coil):
                 (minR, maxZ),
                 (maxR, maxZ),
                 (maxR, minZ),
-                (minR, minZ),
             ]
 
         assert len(shape) > 2
-- 
2.43.0


From 38a44a8d0c5b24ac9e3846af0db2cc79929b9794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:07 +0000
Subject: [PATCH 12/66] fix: keep the operator order, check_limited and R0 when
 saving to HDF5

---
 freegs/dump.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/freegs/dump.py b/freegs/dump.py
index 3822962..2fbbf60 100644
--- a/freegs/dump.py
+++ b/freegs/dump.py
@@ -162,8 +162,15 @@ class OutputFile(object):
             "boundary_function", data=equilibrium._applyBoundary.__name__
         )
 
+        equilibrium_group.create_dataset("order", data=equilibrium.order)
+        equilibrium_group.create_dataset(
+            "check_limited", data=bool(equilibrium.check_limited)
+        )
+
         tokamak_group = equilibrium_group.create_group(self.MACHINE_GROUP_NAME)
 
+        tokamak_group.create_dataset("R0", data=equilibrium.tokamak.R0)
+
         if equilibrium.tokamak.wall is not None:
             tokamak_group.create_dataset("wall_R", data=equilibrium.tokamak.wall.R)
             tokamak_group.create_dataset("wall_Z", data=equilibrium.tokamak.wall.Z)
@@ -216,7 +223,12 @@ class OutputFile(object):
         else:
             wall = None
 
-        tokamak = Machine(coils, wall)
+        # Note: Older files do not contain R0, order or check_limited
+        options = {}
+        if "R0" in tokamak_group:
+            options["R0"] = tokamak_group["R0"][()]
+
+        tokamak = Machine(coils, wall, **options)
 
         Rmin = equilibrium_group["Rmin"][()]
         Rmax = equilibrium_group["Rmax"][()]
@@ -238,6 +250,12 @@ class OutputFile(object):
 
         eq_boundary_func = boundary.__dict__[eq_boundary_name]
 
+        options = {}
+        if "order" in equilibrium_group:
+            options["order"] = int(equilibrium_group["order"][()])
+        if "check_limited" in equilibrium_group:
+            options["check_limited"] = bool(equilibrium_group["check_limited"][()])
+
         equilibrium = Equilibrium(
             tokamak=tokamak,
             Rmin=Rmin,
@@ -249,6 +267,7 @@ class OutputFile(object):
             psi=plasma_psi,
             current=current,
             boundary=eq_boundary_func,
+            **options,
         )
 
         return equilibrium
-- 
2.43.0


From bf21d4ab157d67a2f2e8228dcdfd2d3c1c05b4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:39 +0000
Subject: [PATCH 13/66] fix: flux at limiter points was taken from the
 transposed flux array

---
 freegs/equilibrium.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 6a534b4..1155fe7 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -558,8 +558,7 @@ class Equilibrium:
                 R = np.asarray(self.R[:, 0])
                 Z = np.asarray(self.Z[0, :])
 
-                # psi is transposed due to how FreeGS meshgrids R,Z
-                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi.T)
+                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi)
 
                 # Get psi at the limit points
                 psi_limit_points = np.zeros(len(Rlimit))
-- 
2.43.0


From d1ffd6e750a50e6ae0b56c029fd956c931c292a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:51 +0000
Subject: [PATCH 14/66] fix: limited plasmas with negative plasma current

---
 freegs/equilibrium.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 1155fe7..a837717 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -565,14 +565,18 @@ class Equilibrium:
                 for i in range(len(Rlimit)):
                     psi_limit_points[i] = psi_2d(Rlimit[i], Zlimit[i])[0]
 
-                # Get index of maximum psi value
-                indMax = np.argmax(psi_limit_points)
+                # The magnetic axis is a maximum or a minimum of psi, depending
+                # on the direction of the plasma current
+                sign = -1.0 if psi_2d(opt[0][0], opt[0][1], dx=2)[0, 0] > 0 else 1.0
+
+                # Get index of the psi value closest to the axis
+                indMax = np.argmax(sign * psi_limit_points)
 
                 # Extract R,Z of the contact point
                 self.Rlim = Rlimit[indMax]
                 self.Zlim = Zlimit[indMax]
 
-                # Obtain maximum psi
+                # Obtain limiter psi
                 self.psi_limit = psi_limit_points[indMax]
 
                 # Check if any xpoints are present
@@ -581,7 +585,9 @@ class Equilibrium:
                     self.psi_xpt = xpt[0][2]
 
                     # Choose between diverted or limited flux
-                    self.psi_bndry = max(self.psi_xpt, self.psi_limit)
+                    self.psi_bndry = sign * max(
+                        sign * self.psi_xpt, sign * self.psi_limit
+                    )
 
                     if self.psi_bndry == self.psi_limit:
                         self.is_limited = True
-- 
2.43.0


From 92a2b52821743a34af185a1cae5a8c241f12db94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:43 +0000
Subject: [PATCH 15/66] fix: f = R*Bt has the same sign as the vacuum value
 inside the plasma

---
 freegs/jtor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/freegs/jtor.py b/freegs/jtor.py
index 2e35bb8..2c4f6cb 100644
--- a/freegs/jtor.py
+++ b/freegs/jtor.py
@@ -22,7 +22,7 @@ from scipy.integrate import romb, quad  # Romberg integration
 from . import critical
 from .gradshafranov import mu0
 
-from numpy import clip, zeros, reshape, sqrt
+from numpy import clip, copysign, zeros, reshape, sqrt
 import numpy as np
 import abc
 
@@ -85,7 +85,8 @@ class Profile(abc.ABC):
 
             # ffprime = 0.5*d/dpsi(f^2)
             # Apply boundary condition at psinorm=1 val = fvac**2
-            return sqrt(2.0 * val + self.fvac() ** 2)
+            # Note: f has the same sign as fvac
+            return copysign(sqrt(2.0 * val + self.fvac() ** 2), self.fvac())
 
         # Assume it's a NumPy array, or can be converted to one
         psinorm = np.array(psinorm)
@@ -105,7 +106,8 @@ class Profile(abc.ABC):
 
             # ffprime = 0.5*d/dpsi(f^2)
             # Apply boundary condition at psinorm=1 val = fvac**2
-            ovals[i] = sqrt(2.0 * val + self.fvac() ** 2)
+            # Note: f has the same sign as fvac
+            ovals[i] = copysign(sqrt(2.0 * val + self.fvac() ** 2), self.fvac())
 
         return reshape(ovals, psinorm.shape)
 
-- 
2.43.0


From a5760b7da18af425c1181d7183d0d31d3ecf78ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:24 +0000
Subject: [PATCH 16/66] fix: safety factor of limited plasmas uses the limited
 boundary flux

---
 freegs/critical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 556093e..79f4a68 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -470,7 +470,9 @@ def find_safety(
         # No X-point
         raise ValueError("No X-point so no separatrix")
     else:
-        psinormal = (psi - opoint[0][2]) / (xpoint[0][2] - opoint[0][2])
+        # The boundary of a limited plasma is not at the X-point
+        psi_bndry = eq.psi_bndry if eq.is_limited else xpoint[0][2]
+        psinormal = (psi - opoint[0][2]) / (psi_bndry - opoint[0][2])
 
     psifunc = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], psinormal)
 
-- 
2.43.0


From e1422461147ed33db9e3182df9db4f44a8f660fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:33 +0000
Subject: [PATCH 17/66] fix: q() accepts a list of normalised psi values, as
 documented

---
 freegs/equilibrium.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index a837717..e2a22de 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -359,7 +359,9 @@ class Equilibrium:
             psinorm = linspace(1.0 / (npsi + 1), 1.0, npsi, endpoint=False)
             return psinorm, critical.find_safety(self, psinorm=psinorm)
 
-        elif np.any((psinorm < 0.01) | (psinorm > 0.99)):
+        psinorm = np.asarray(psinorm)
+
+        if np.any((psinorm < 0.01) | (psinorm > 0.99)):
             psinorm_inner = np.linspace(0.01, 0.99, num=npsi)
             q_inner = critical.find_safety(self, psinorm=psinorm_inner)
 
-- 
2.43.0


From 1bb39450907ac733030ee078fdf4a4648cddaea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:53 +0000
Subject: [PATCH 18/66] fix: poloidalBeta3 multiplied the volume-integrated
 pressure by the volume

---
 freegs/equilibrium.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index e2a22de..2a14508 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1154,9 +1154,9 @@ class Equilibrium:
 
         pressure_integral = romb(romb(pressure * dV))
         Ip = self.plasmaCurrent()
-        vol = self.plasmaVolume()
         r0 = self.Rgeometric()
-        return 4 * vol * pressure_integral / (mu0 * Ip * Ip * r0)
+        # Note: pressure_integral is the volume integral
+        return 4 * pressure_integral / (mu0 * Ip * Ip * r0)
 
     def toroidalBeta(self):
         """Calculate plasma toroidal beta by integrating the thermal pressure
-- 
2.43.0


From 733dfd271dbcfff5c0258e273650bc2eefe42049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:34 +0000
Subject: [PATCH 19/66] fix: G-EQDSK profiles are on a uniform grid which
 includes the boundary

---
 freegs/geqdsk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 8128c98..c85eee1 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -105,7 +105,7 @@ def write(eq, fh, label=None, oxpoints=None, fileformat=geqdsk.write):
 
     data["cpasma"] = eq.plasmaCurrent()  # Plasma current [A]
 
-    psinorm = linspace(0.0, 1.0, nx, endpoint=False)  # Does not include separatrix
+    psinorm = linspace(0.0, 1.0, nx)  # Uniform from axis to separatrix
 
     data["fpol"] = eq.fpol(psinorm)
     data["pres"] = eq.pressure(psinorm)
-- 
2.43.0


From 257deac79b726fd50d082f29026fe26021caeca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:43 +0000
Subject: [PATCH 20/66] fix: geqdsk.read with recent versions of freeqdsk

---
 freegs/geqdsk.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index c85eee1..ab1d93e 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -247,9 +247,15 @@ def read(
     data = geqdsk.read(fh, cocos=cocos)
 
     # If data contains a limiter, set the machine wall
-    if "rlim" in data:
-        if len(data["rlim"]) > 3:
-            machine.wall = Wall(data["rlim"], data["zlim"])
+    # Note: data is a dictionary or a dataclass, depending on freeqdsk version
+    try:
+        rlim, zlim = data["rlim"], data["zlim"]
+    except (KeyError, AttributeError):
+        rlim = None
+
+    if rlim is not None:
+        if len(rlim) > 3:
+            machine.wall = Wall(rlim, zlim)
         else:
             print("Fewer than 3 points given for limiter/wall. Ignoring.")
 
-- 
2.43.0


From 4b68f649e67f406816bbe462d687802326528cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:51 +0000
Subject: [PATCH 21/66] fix: geqdsk.read updates limiter points when it sets
 the machine wall

---
 freegs/geqdsk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index ab1d93e..8769052 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -256,6 +256,10 @@ def read(
     if rlim is not None:
         if len(rlim) > 3:
             machine.wall = Wall(rlim, zlim)
+            # Points on the new wall, used to check if the plasma is limited
+            machine.limit_points_R, machine.limit_points_Z = (
+                machine.generate_limit_points(500)
+            )
         else:
             print("Fewer than 3 points given for limiter/wall. Ignoring.")
 
-- 
2.43.0


From b24fa99f33c5f055c95c7906746c67a814605044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:30 +0000
Subject: [PATCH 22/66] fix: geqdsk.read domain option

---
 freegs/geqdsk.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 8769052..0e85cb5 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -382,6 +382,7 @@ def read(
         # to keep the resolution as good or better than the input
         Rmin, Rmax, Zmin, Zmax = domain
         # Calculate approximate grid size needed to keep current resolution
+        newnx, newny = nx, ny
         fnewnx = (Rmax - Rmin) / dR + 1.0
         if fnewnx > nx:
             newnx = int(ceilPow2(fnewnx - 1)) + 1
@@ -404,8 +405,8 @@ def read(
             Rmax=Rmax,
             Zmin=Zmin,
             Zmax=Zmax,
-            nx=nx,
-            ny=ny,
+            nx=newnx,
+            ny=newny,
             check_limited=True,
         )
 
@@ -413,6 +414,9 @@ def read(
         Jtor = Jtor_func(eq.R, eq.Z, grid=False)
         psi = psi_func(eq.R, eq.Z, grid=False)
 
+        # Find the axis, boundary and mask from the input psi
+        eq._updatePlasmaPsi(psi)
+
         psi_bndry = eq.psi_bndry
         psi_axis = eq.psi_axis
         mask = eq.mask
-- 
2.43.0


From 2623d0bc144973485ad3a51f8a2c5dbee50fe29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:10 +0000
Subject: [PATCH 23/66] fix: geqdsk.read with a machine whose coils already
 carry current

---
 freegs/geqdsk.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 0e85cb5..c8c45b7 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -360,8 +360,10 @@ def read(
         nx=nx,
         ny=ny,  # Number of grid points
         check_limited=True,
-        psi=psi,
     )
+    # The input psi includes the contribution from the coils
+    eq._updatePlasmaPsi(psi - machine.psi(eq.R, eq.Z))
+
     # Grid spacing
     dR = eq.R[1, 0] - eq.R[0, 0]
     dZ = eq.Z[0, 1] - eq.Z[0, 0]
@@ -415,7 +417,7 @@ def read(
         psi = psi_func(eq.R, eq.Z, grid=False)
 
         # Find the axis, boundary and mask from the input psi
-        eq._updatePlasmaPsi(psi)
+        eq._updatePlasmaPsi(psi - machine.psi(eq.R, eq.Z))
 
         psi_bndry = eq.psi_bndry
         psi_axis = eq.psi_axis
-- 
2.43.0


From a4b15a751c4345ce565e563d8612cfa3d764c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:17 +0000
Subject: [PATCH 24/66] fix: 2D flux constraints with scalar weights or without
 current limits

---
 freegs/control.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index e3e5dcd..89252d5 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -226,7 +226,9 @@ class ConstrainPsi2D(object):
 
         """
         if weights is None:
-            weights = np.full(target_psi.shape, 1.0)
+            weights = 1.0
+        # Weights are used in averages, so must be the same shape as psi
+        weights = np.broadcast_to(weights, target_psi.shape)
 
         # Remove the average so constant offsets are ignored
         self.target_psi = target_psi - np.average(target_psi, weights=weights)
@@ -352,7 +354,8 @@ class ConstrainPsi2DAdvanced(object):
 
         self.current_lims = current_lims
         self.target_psi = target_psi
-        self.weights = weights
+        # Weights are used in averages, so must be the same shape as psi
+        self.weights = np.broadcast_to(weights, target_psi.shape)
 
     def __call__(self, eq):
         """
@@ -365,7 +368,7 @@ class ConstrainPsi2DAdvanced(object):
 
         # In order for the optimisation to work, the initial guess must be within the
         # bounds supplied. Hence, check start_currents and adjust accordingly to be within bounds
-        for i in range(ncontrols):
+        for i in range(ncontrols if self.current_lims is not None else 0):
             bnd_upper = max(self.current_lims[i])
             bnd_lower = min(self.current_lims[i])
             sc = start_currents[i]
@@ -460,7 +463,7 @@ class ConstrainPsiNorm2DAdvanced(object):
 
         # In order for the optimisation to work, the initial guess must be within the
         # bounds supplied. Hence, check start_currents and adjust accordingly to be within bounds
-        for i in range(ncontrols):
+        for i in range(ncontrols if self.current_lims is not None else 0):
             bnd_upper = max(self.current_lims[i])
             bnd_lower = min(self.current_lims[i])
             sc = start_currents[i]
-- 
2.43.0


From bda4b33e0c892080b0716ec30bd47326f36bfcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 25/66] fix: bounded 2D flux constraints minimise the
 difference, rather than stopping at the start

---
 freegs/control.py | 61 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index 89252d5..27c87f0 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -324,6 +324,24 @@ class ConstrainPsiNorm2D(object):
         ).ravel()  # flatten array
 
 
+def bounded_least_squares(residual, start_currents, bounds, eq):
+    """
+    Minimise the sum of squares of residual(currents, eq), with
+    (lower, upper) bounds on each current.
+    """
+    lower, upper = bounds[:, 0], bounds[:, 1]
+    # The lower bound must be strictly less than the upper bound
+    gap = np.where(lower < upper, 0.0, 1e-8 * np.maximum(1.0, abs(upper)))
+    end_currents = optimize.least_squares(
+        residual,
+        start_currents,
+        bounds=(lower - gap, upper + gap),
+        x_scale="jac",
+        args=(eq,),
+    ).x
+    return np.clip(end_currents, lower, upper)
+
+
 class ConstrainPsi2DAdvanced(object):
     """
     Adjusts coil currents to minimise the square differences
@@ -392,13 +410,9 @@ class ConstrainPsi2DAdvanced(object):
 
         # Least squares optimisation of difference in target v achieved normalised psi
         # applied with bounds on coil currents
-        end_currents = optimize.minimize(
-            self.psi_difference,
-            start_currents,
-            method="L-BFGS-B",
-            bounds=current_bnds,
-            args=(eq,),
-        ).x
+        end_currents = bounded_least_squares(
+            self.residual, start_currents, current_bnds, eq
+        )
 
         # Set the latest coil currents
         tokamak.setControlCurrents(end_currents)
@@ -411,15 +425,18 @@ class ConstrainPsi2DAdvanced(object):
         Sum of the squares of the differences between the achieved
         psi and the target psi.
         """
+        return np.sum(self.residual(currents, eq) ** 2)
+
+    def residual(self, currents, eq):
+        """
+        Weighted differences between the achieved psi and the target psi.
+        """
         eq.getMachine().setControlCurrents(currents)
         psi = eq.psi()
         eq._updateBoundaryPsi(psi)
 
         psi_av = np.average(psi, weights=self.weights)
-        diff = (psi - psi_av - self.target_psi) * self.weights
-        sum_square_diff = np.sum(diff * diff)
-
-        return sum_square_diff
+        return ((psi - psi_av - self.target_psi) * self.weights).ravel()
 
 
 class ConstrainPsiNorm2DAdvanced(object):
@@ -487,13 +504,9 @@ class ConstrainPsiNorm2DAdvanced(object):
 
         # Least squares optimisation of difference in target v achieved normalised psi
         # applied with bounds on coil currents
-        end_currents = optimize.minimize(
-            self.psinorm_difference,
-            start_currents,
-            method="L-BFGS-B",
-            bounds=current_bnds,
-            args=(eq,),
-        ).x
+        end_currents = bounded_least_squares(
+            self.residual, start_currents, current_bnds, eq
+        )
 
         # Set the latest coil currents
         tokamak.setControlCurrents(end_currents)
@@ -506,6 +519,13 @@ class ConstrainPsiNorm2DAdvanced(object):
         Sum of the squares of the differences between the achieved normalised
         psi and the target normalised psi.
         """
+        return np.sum(self.residual(currents, eq) ** 2)
+
+    def residual(self, currents, eq):
+        """
+        Weighted differences between the achieved normalised psi
+        and the target normalised psi.
+        """
         eq.getMachine().setControlCurrents(currents)
         psi = eq.psi()
 
@@ -517,7 +537,4 @@ class ConstrainPsiNorm2DAdvanced(object):
         # 0 = magnetic axis
         # 1 = plasma boundary
         psi_norm = (psi - psi_axis) / (psi_bndry - psi_axis)
-        diff = (psi_norm - self.target_psinorm) * self.weights
-        sum_square_diff = np.sum(diff * diff)
-
-        return sum_square_diff
+        return ((psi_norm - self.target_psinorm) * self.weights).ravel()
-- 
2.43.0


From a48935bf73792f90a66b850107a70645bf4fce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:40 +0000
Subject: [PATCH 26/66] fix: bounded 2D flux constraint ignores constant
 offsets in the target

---
 freegs/control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/control.py b/freegs/control.py
index 27c87f0..433a82f 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -371,9 +371,10 @@ class ConstrainPsi2DAdvanced(object):
         """
 
         self.current_lims = current_lims
-        self.target_psi = target_psi
         # Weights are used in averages, so must be the same shape as psi
         self.weights = np.broadcast_to(weights, target_psi.shape)
+        # Remove the average so constant offsets are ignored
+        self.target_psi = target_psi - np.average(target_psi, weights=self.weights)
 
     def __call__(self, eq):
         """
-- 
2.43.0


From 00390252342d8504f3f0ad91a1ccca13c4ed1bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:24 +0000
Subject: [PATCH 27/66] fix: solving a refined equilibrium with the original
 profiles

---
 freegs/equilibrium.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 2a14508..b490b4f 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -473,6 +473,10 @@ class Equilibrium:
         """
 
         self._profiles = profiles
+        if hasattr(profiles, "eq"):
+            # Profiles which use an Equilibrium to find the plasma boundary
+            # may have been created for a different one (e.g. before refining)
+            profiles.eq = self
         self._updateBoundaryPsi()
 
         if Jtor is None:
-- 
2.43.0


From 1e60f2bf4b9c20ec3a18df0eff8ce33e0974cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:35 +0000
Subject: [PATCH 28/66] fix: newDomain keeps the resolution in Z, boundary
 condition and order

---
 freegs/equilibrium.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index b490b4f..6a2d806 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1364,11 +1364,20 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
     if nx is None:
         nx = eq.R.shape[0]
     if ny is None:
-        ny = eq.R.shape[0]
+        ny = eq.R.shape[1]
 
     # Create a new equilibrium with the new domain
     result = Equilibrium(
-        tokamak=eq.tokamak, Rmin=Rmin, Rmax=Rmax, Zmin=Zmin, Zmax=Zmax, nx=nx, ny=ny
+        tokamak=eq.tokamak,
+        Rmin=Rmin,
+        Rmax=Rmax,
+        Zmin=Zmin,
+        Zmax=Zmax,
+        nx=nx,
+        ny=ny,
+        boundary=eq._applyBoundary,
+        order=eq.order,
+        check_limited=eq.check_limited,
     )
 
     # Calculate the current on the old grid
-- 
2.43.0


From 510debf5e7755995ce8b6500485f764f04cffbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:47 +0000
Subject: [PATCH 29/66] fix: changing resolution keeps the boundary flux,
 plasma current and options

---
 freegs/equilibrium.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 6a2d806..5f4ad1b 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1305,6 +1305,8 @@ def refine(eq, nx=None, ny=None):
         order=eq.order,
         nx=nx,
         ny=ny,
+        current=eq.plasmaCurrent(),
+        check_limited=eq.check_limited,
     )
 
     plasma_psi = eq.psi_func(result.R, result.Z, grid=False)
@@ -1324,7 +1326,8 @@ def coarsen(eq):
     """
     Reduce grid resolution, returning a new equilibrium
     """
-    plasma_psi = multigrid.restrict(eq.plasma_psi)
+    # Use every second point, including the boundaries
+    plasma_psi = eq.plasma_psi[::2, ::2].copy()
     nx, ny = plasma_psi.shape
 
     result = Equilibrium(
@@ -1333,8 +1336,12 @@ def coarsen(eq):
         Rmax=eq.Rmax,
         Zmin=eq.Zmin,
         Zmax=eq.Zmax,
+        boundary=eq._applyBoundary,
+        order=eq.order,
         nx=nx,
         ny=ny,
+        current=eq.plasmaCurrent(),
+        check_limited=eq.check_limited,
     )
 
     result._updatePlasmaPsi(plasma_psi)
-- 
2.43.0


From 5a8c35fef4a44a6e887f66ce75a9f8a34357657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:58 +0000
Subject: [PATCH 30/66] fix: intersect with open lines used the wrong end point
 for the last segment

---
 freegs/polygons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index 4322361..ba6af9a 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -43,8 +43,8 @@ def intersect(r1, z1, r2, z2, closed1=True, closed2=True):
             # (r1[i],z1[i]) -- (r1[i+1],z1[i+1])
             # (r1[j],z1[j]) -- (r1[j+1],z1[j+1])
             # Note that since polynomials are closed the indices wrap around
-            ip = (i + 1) % n1
-            jp = (j + 1) % n2
+            ip = (i + 1) % len(r1)
+            jp = (j + 1) % len(r2)
 
             a = r1[ip] - r1[i]
             b = r2[jp] - r2[j]
-- 
2.43.0


From adb19b78c77a4c812e96a55ae6a8f99356d16357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:06 +0000
Subject: [PATCH 31/66] fix: intersect misses crossings of short line segments

---
 freegs/polygons.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index ba6af9a..35ff4e5 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -23,6 +23,8 @@ You should have received a copy of the GNU Lesser General Public License
 along with FreeGS.  If not, see <http://www.gnu.org/licenses/>.
 """
 
+from math import sqrt
+
 
 def intersect(r1, z1, r2, z2, closed1=True, closed2=True):
     """Test if two polynomials intersect. The polynomials consist of
@@ -56,8 +58,9 @@ def intersect(r1, z1, r2, z2, closed1=True, closed2=True):
 
             det = a * d - b * c
 
-            if abs(det) < 1e-6:
-                continue  # Almost certainly doesn't intersect
+            # Note: det is the product of the lengths and sine of the angle
+            if abs(det) <= 1e-6 * sqrt((a * a + c * c) * (b * b + d * d)):
+                continue  # Nearly parallel. Almost certainly doesn't intersect
 
             alpha = (d * dr - b * dz) / det  # Location along line 1 [0,1]
             beta = (a * dz - c * dr) / det  # Location along line 2 [0,1]
-- 
2.43.0


From c276a3ad69ba488b8bedfc9e13089a47780a266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:18 +0000
Subject: [PATCH 32/66] fix: triangulation of concave polygons produced
 triangles outside the polygon

---
 freegs/polygons.py | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index 35ff4e5..a2336ec 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -105,6 +105,18 @@ def clockwise(polygon):
     return area(polygon) > 0
 
 
+def in_triangle(point, v1, v2, v3):
+    """
+    True if a point (r, z) is inside, or on the edge of, the triangle
+    with clockwise vertices v1, v2, v3
+    """
+    r, z = point
+    for (r1, z1), (r2, z2) in ((v1, v2), (v2, v3), (v3, v1)):
+        if (z2 - z1) * (r - r2) - (r2 - r1) * (z - z2) < 0:
+            return False  # On the outside of this edge
+    return True
+
+
 def triangulate(polygon):
     """
     Use the ear clipping method to turn an arbitrary polygon into triangles
@@ -114,11 +126,10 @@ def triangulate(polygon):
     polygon   [ (r1, z1), (r2, z2), ... ]
     """
 
-    if clockwise(polygon):
-        # Copy input into list
-        polygon = list(iter(polygon))
-    else:
-        polygon = list(reversed(polygon))
+    # Copy input into list
+    polygon = [(r, z) for r, z in polygon]
+    if not clockwise(polygon):
+        polygon.reverse()
     # Now polygon should be clockwise
 
     nvert = len(polygon)  # Number of vertices
@@ -140,22 +151,12 @@ def triangulate(polygon):
             if cross < 0:
                 continue  # Skip this vertex
 
-            # Check these edges don't intersect with other edges
-            r1 = [prev_vert[0], vert[0], next_vert[0]]
-            z1 = [prev_vert[1], vert[1], next_vert[1]]
-
-            r2 = []
-            z2 = []
-            if i < nvert - 1:
-                r2 += [v[0] for v in polygon[(i + 1) :]]
-                z2 += [v[1] for v in polygon[(i + 1) :]]
-            if i > 0:
-                r2 += [v[0] for v in polygon[:i]]
-                z2 += [v[1] for v in polygon[:i]]
-
-            # (r1,z1) is the line along two edges of the triangle
-            # (r2,z2) is the rest of the polygon
-            if intersect(r1, z1, r2, z2, closed1=False, closed2=False):
+            # Check that no other vertices are inside the triangle
+            if any(
+                in_triangle(v, prev_vert, vert, next_vert)
+                for v in polygon
+                if v not in (prev_vert, vert, next_vert)
+            ):
                 continue  # Skip
 
             # Found an ear
@@ -164,6 +165,8 @@ def triangulate(polygon):
             del polygon[i]
             nvert -= 1
             break
+        else:
+            raise ValueError("Could not triangulate polygon. Does it cross itself?")
 
     # Reduced to a single triangle
     triangles.append(polygon)
-- 
2.43.0


From 923ab8caa851f9017786959d496d5780f615be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:28 +0000
Subject: [PATCH 33/66] fix: field line length was negative if Btor is negative

---
 freegs/fieldtracer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index db48419..ed3cc03 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -113,7 +113,8 @@ class FieldTracer(object):
         # Rate of change of position with toroidal angle phi
         dRdphi = evolving_R_Bt * Br
         dZdphi = evolving_R_Bt * Bz
-        dldphi = evolving_R_Bt * B
+        # Note: Length always increases, also if Btor is negative
+        dldphi = np.abs(evolving_R_Bt) * B
 
         if backward:
             # Reverse direction
-- 
2.43.0


From 49f0063243cb569fea6d090c8fee30268d4a9901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:57 +0000
Subject: [PATCH 34/66] fix: solving an Equilibrium modified the psi array it
 was created from

---
 freegs/equilibrium.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 5f4ad1b..94d7235 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -127,6 +127,9 @@ class Equilibrium:
             psi[:, 0] = 0.0
             psi[-1, :] = 0.0
             psi[:, -1] = 0.0
+        else:
+            # Copy, because solving modifies the boundary values
+            psi = array(psi, dtype=float)
 
         # Calculate coil Greens functions. This is an optimisation,
         # used in self.psi() to speed up calculations
-- 
2.43.0


From ea31499e178cc03fa072efb739742375a38bbee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:50 +0000
Subject: [PATCH 35/66] fix: populating a FilamentCoil from its shape failed

The grid spacing was an array with one element, so filaments in the staggered
rows were arrays while the others were numbers, and numpy refuses to make an
array of the two.
---
 freegs/filament_coil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 3b62cfd..b5ff883 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -113,7 +113,7 @@ def populate_with_fils(shape, Nfils):
 
     # Now linearly interpolate to get the d that corresponds
     # to the closest nInside to Nfils
-    d_opt = np.interp([Nfils * 1.1], nInside_data, d_data)
+    d_opt = np.interp(Nfils * 1.1, nInside_data, d_data)
 
     # Now get the locations of the filaments for this d = d_opt where nInside ~ Nfils
     rfils = []
-- 
2.43.0


From 4207324eb5a1230a188b87ed69d86fd6df245943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:10 +0000
Subject: [PATCH 36/66] fix: bounded coil current constraints only clipped the
 unbounded solution

The optimiser's absolute tolerances were much larger than the objective, whose
gradient with respect to currents in Amps is tiny, so it stopped at its starting
point: the unbounded solution, clipped to the limits.
---
 freegs/control.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index 433a82f..042d498 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -169,9 +169,9 @@ class constrain(object):
 
         def max_total_currents(x):
             sum = 0.0
-            for delta, i in zip(x, tokamak.controlCurrents()):
+            for delta, i in zip(x * x_scale, tokamak.controlCurrents()):
                 sum += abs(delta + i)
-            return -(sum - self.max_total_current)
+            return -(sum - self.max_total_current) / x_scale
 
         if self.max_total_current is not None:
             con1 = {"type": "ineq", "fun": max_total_currents}
@@ -179,12 +179,25 @@ class constrain(object):
 
         # Use the analytical current change as the initial guess
         if self.current_change.shape[0] > 0:
-            x0 = self.current_change
+            x0 = np.clip(
+                self.current_change, current_change_bnds[:, 0], current_change_bnds[:, 1]
+            )
+            # The tolerances of the optimiser are absolute, so scale the currents
+            # and the objective to be of order 1
+            x_scale = max(np.amax(abs(x0)), 1.0)
+            obj_scale = max(objective(x0), norm(b2) ** 2, 1e-300)
             sol = optimize.minimize(
-                objective, x0, method="SLSQP", bounds=current_change_bnds, constraints=cons
+                lambda x: objective(x * x_scale) / obj_scale,
+                x0 / x_scale,
+                jac=lambda x: (2.0 * x_scale / obj_scale)
+                * dot(transpose(A2), A2 @ (x * x_scale) - b2),
+                method="SLSQP",
+                bounds=current_change_bnds / x_scale,
+                constraints=cons,
+                options={"ftol": 1e-12, "maxiter": 500},
             )
 
-            self.current_change = sol.x
+            self.current_change = sol.x * x_scale
             tokamak.controlAdjust(self.current_change)
 
         # Store info for user
-- 
2.43.0


From ca3cf4da72bbba24b9a1a8b09bac6a4e23d5a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:16 +0000
Subject: [PATCH 37/66] fix: boundary points next to the X-point were put on
 the magnetic axis

---
 freegs/critical.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 79f4a68..a6d6dbf 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -358,7 +358,13 @@ def find_psisurface(eq, psifunc, r0, z0, r1, z1, psival=1.0, n=100, axis=None):
         # Only one value
         ind = argmax(pnorm > psival)
 
-        if ind == 0:
+        if not pnorm[ind] > psival:
+            # The surface is not crossed, because the line passes
+            # (nearly) through an X-point: Use the closest approach
+            ind = argmax(pnorm)
+            r = r[ind]
+            z = z[ind]
+        elif ind == 0:
             # If the point is very close to the magnetic axis, don't
             # try to do extrapolation.
             r = r[ind]
-- 
2.43.0


From d9a225491b61c5b3aad61e597eeb81d54f0d58aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:34 +0000
Subject: [PATCH 38/66] fix: q() of a single normalised psi value

---
 freegs/equilibrium.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 94d7235..861e558 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -362,7 +362,7 @@ class Equilibrium:
             psinorm = linspace(1.0 / (npsi + 1), 1.0, npsi, endpoint=False)
             return psinorm, critical.find_safety(self, psinorm=psinorm)
 
-        psinorm = np.asarray(psinorm)
+        psinorm = np.atleast_1d(psinorm)
 
         if np.any((psinorm < 0.01) | (psinorm > 0.99)):
             psinorm_inner = np.linspace(0.01, 0.99, num=npsi)
-- 
2.43.0


From ea70c7cb9acd7c998c8ed8c14ae05153dabc1bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:57 +0000
Subject: [PATCH 39/66] fix: force on a coil without current was not a number

---
 freegs/coil.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/freegs/coil.py b/freegs/coil.py
index 963dcb1..40e61ee 100644
--- a/freegs/coil.py
+++ b/freegs/coil.py
@@ -184,19 +184,23 @@ class Coil:
         Bz = equilibrium.Bz(self.R, self.Z)
         self.current = current
 
-        # Assume circular cross-section for hoop (self) force
-        minor_radius = np.sqrt(self.area / np.pi)
-
-        # Self inductance factor, depending on internal current
-        # distribution. 0.5 for uniform current, 0 for surface current
-        self_inductance = 0.5
-
-        # Force per unit length.
-        # In cgs units f = I^2/(c^2 * R) * (ln(8*R/a) - 1 + xi/2)
-        # In SI units f = mu0 * I^2 / (4*pi*R) * (ln(8*R/a) - 1 + xi/2)
-        self_fr = (mu0 * total_current ** 2 / (4.0 * np.pi * self.R)) * (
-            np.log(8.0 * self.R / minor_radius) - 1 + self_inductance / 2.0
-        )
+        if total_current == 0.0:
+            # No self force. Note: The area of the coil may be zero
+            self_fr = 0.0
+        else:
+            # Assume circular cross-section for hoop (self) force
+            minor_radius = np.sqrt(self.area / np.pi)
+
+            # Self inductance factor, depending on internal current
+            # distribution. 0.5 for uniform current, 0 for surface current
+            self_inductance = 0.5
+
+            # Force per unit length.
+            # In cgs units f = I^2/(c^2 * R) * (ln(8*R/a) - 1 + xi/2)
+            # In SI units f = mu0 * I^2 / (4*pi*R) * (ln(8*R/a) - 1 + xi/2)
+            self_fr = (mu0 * total_current ** 2 / (4.0 * np.pi * self.R)) * (
+                np.log(8.0 * self.R / minor_radius) - 1 + self_inductance / 2.0
+            )
 
         Ltor = 2 * np.pi * self.R  # Length of coil
         return np.array(
-- 
2.43.0


From 00b37284d3845f86df5db59bd5949d64e8493ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:38 +0000
Subject: [PATCH 40/66] fix: pickUnique could hardly ever pick the last agents

---
 freegs/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index e898217..cbf5e5b 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -69,7 +69,7 @@ def pickUnique(N, m, e):
         newind = random.randint(0, high + 1)  # Note: Upper limit is exclusive
         
         for ind in inds:
-            if newind == ind:
+            if newind >= ind:
                 newind += 1
         bisect.insort(inds, newind)
         others.append(newind)
-- 
2.43.0


From 92b497fdd3c2e1408f14d2c8b9e98802b3f270b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:35 +0000
Subject: [PATCH 41/66] fix: optimiser lost better candidates when a score was
 not a number

---
 freegs/optimiser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index cbf5e5b..bfee1e1 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -122,12 +122,18 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
 
     assert N >= 4
 
-    best = (measure(obj), obj)  # Lowest score, candidate solution (agent)
+    def get_score(agent):
+        score = measure(agent)
+        # A score which is not a number can't be compared with others,
+        # so would never be replaced by a better one
+        return score if score == score else float("inf")
+
+    best = (get_score(obj), obj)  # Lowest score, candidate solution (agent)
     population = [best]  # List of (score, agent)
 
     for i in range(N - 1):
         agent = mutate(obj, controls)
-        score_agent = (measure(agent), agent)
+        score_agent = (get_score(agent), agent)
         population.append(score_agent)
         if score_agent[0] < best[0]:
             best = score_agent
@@ -147,7 +153,7 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
                         control.get(others[0])
                         + F * (control.get(others[1]) - control.get(others[2])),
                     )
-            score = measure(new_obj)
+            score = get_score(new_obj)
             if score < agent[0]:
                 # Better than original
                 new_agent = (score, new_obj)
-- 
2.43.0


From 2fdeda997a3ceba14f44c0cdae9d18f7887418c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:30 +0000
Subject: [PATCH 42/66] fix: intersect missed lines which cross at a vertex

---
 freegs/polygons.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index a2336ec..df0147c 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -65,7 +65,8 @@ def intersect(r1, z1, r2, z2, closed1=True, closed2=True):
             alpha = (d * dr - b * dz) / det  # Location along line 1 [0,1]
             beta = (a * dz - c * dr) / det  # Location along line 2 [0,1]
 
-            if (alpha > 0.0) & (alpha < 1.0) & (beta > 0.0) & (beta < 1.0):
+            # Note: End points included, or lines crossing at a vertex are missed
+            if (alpha >= 0.0) & (alpha <= 1.0) & (beta >= 0.0) & (beta <= 1.0):
                 return True
     # Tested all combinations, none intersect
     return False
-- 
2.43.0


From 705c811a1a9a6177481e8cd09fbc7040ce32b51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:41 +0000
Subject: [PATCH 43/66] fix: field lines went astray when following several
 turns between angles

---
 freegs/fieldtracer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index ed3cc03..dc9d7a0 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -140,8 +140,15 @@ class FieldTracer(object):
         # (R,Z,length) with length=0 initially
         position = np.column_stack((Rstart, Zstart, np.zeros(array_shape))).flatten()
 
+        # Note: The default limit of 500 steps between angles is only
+        # enough for about two turns, after which the result is wrong
         result = odeint(
-            self.fieldDirection, position, angles, args=(evolving, backward), rtol=rtol
+            self.fieldDirection,
+            position,
+            angles,
+            args=(evolving, backward),
+            rtol=rtol,
+            mxstep=100000,
         )
 
         return result.reshape(angles.shape + array_shape + (3,))
-- 
2.43.0


From 09ab74b9cd753e47db2b25c91dbc8f629360e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:49 +0000
Subject: [PATCH 44/66] fix: following field lines from a single location or a
 grid of locations failed

---
 freegs/fieldtracer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index dc9d7a0..9a2a964 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -135,10 +135,13 @@ class FieldTracer(object):
         array_shape = Rstart.shape
         assert Zstart.shape == array_shape
 
-        evolving = np.ones(array_shape)
+        # Note: The arrays of locations can have any number of dimensions
+        evolving = np.ones(Rstart.size)
 
         # (R,Z,length) with length=0 initially
-        position = np.column_stack((Rstart, Zstart, np.zeros(array_shape))).flatten()
+        position = np.column_stack(
+            (Rstart.ravel(), Zstart.ravel(), np.zeros(Rstart.size))
+        ).flatten()
 
         # Note: The default limit of 500 steps between angles is only
         # enough for about two turns, after which the result is wrong
-- 
2.43.0


From c4f98bc57faa9f08b100e3d222651aeae4664334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 45/66] fix: multigrid restriction ignored neighbouring points,
 so cycles could diverge

---
 freegs/multigrid.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/freegs/multigrid.py b/freegs/multigrid.py
index 6f72771..68be8ee 100644
--- a/freegs/multigrid.py
+++ b/freegs/multigrid.py
@@ -91,7 +91,7 @@ class MGJacobi:
                 error = b - self.A.dot(x)
 
                 # Restrict error onto coarser mesh
-                self.sub_b = restrict(reshape(error, xi.shape))
+                self.sub_b = restrict(reshape(error, xi.shape), avg=True)
 
                 # smooth this error
                 sub_x = zeros(self.sub_b.shape)
@@ -203,19 +203,23 @@ def restrict(orig, out=None, avg=False):
         for y in range(1, ny - 1):
             x0 = 2 * x
             y0 = 2 * y
-            out[x, y] = orig[x0, y0] / 4.0
-            +(
-                orig[x0 + 1, y0]
-                + orig[x0 - 1, y0]
-                + orig[x0, y0 + 1]
-                + orig[x0, y0 - 1]
-            ) / 8.0
-            +(
-                orig[x0 - 1, y0 - 1]
-                + orig[x0 - 1, y0 + 1]
-                + orig[x0 + 1, y0 - 1]
-                + orig[x0 + 1, y0 + 1]
-            ) / 16.0
+            out[x, y] = (
+                orig[x0, y0] / 4.0
+                + (
+                    orig[x0 + 1, y0]
+                    + orig[x0 - 1, y0]
+                    + orig[x0, y0 + 1]
+                    + orig[x0, y0 - 1]
+                )
+                / 8.0
+                + (
+                    orig[x0 - 1, y0 - 1]
+                    + orig[x0 - 1, y0 + 1]
+                    + orig[x0 + 1, y0 - 1]
+                    + orig[x0 + 1, y0 + 1]
+                )
+                / 16.0
+            )
     if not avg:
         out *= 4.0
 
@@ -273,7 +277,7 @@ def smoothVcycle(A, x, b, dx, dy, niter=10, sublevels=0, direct=True):
         error = b - A(x, dx, dy)
 
         # Restrict error onto coarser mesh
-        Cerror = restrict(error)
+        Cerror = restrict(error, avg=True)
 
         # smooth this error
         Cx = zeros(Cerror.shape)
-- 
2.43.0


From 1cfa439b44ed3717a33da4bbfb042bdd53d71a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:54 +0000
Subject: [PATCH 46/66] fix: solving changed the boundary of the plasma flux
 array held by the caller

---
 freegs/equilibrium.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 861e558..aa1d59c 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -491,19 +491,21 @@ class Equilibrium:
         # Set plasma boundary
         # Note that the Equilibrium is passed to the boundary function
         # since the boundary may need to run the G-S solver (von Hagenow's method)
-        self._applyBoundary(self, Jtor, self.plasma_psi)
+        # Work on a copy, so that plasma_psi held by the caller is not changed
+        plasma_psi = self.plasma_psi.copy()
+        self._applyBoundary(self, Jtor, plasma_psi)
 
         # Right hand side of G-S equation
         rhs = -mu0 * self.R * Jtor
 
         # Copy boundary conditions
-        rhs[0, :] = self.plasma_psi[0, :]
-        rhs[:, 0] = self.plasma_psi[:, 0]
-        rhs[-1, :] = self.plasma_psi[-1, :]
-        rhs[:, -1] = self.plasma_psi[:, -1]
+        rhs[0, :] = plasma_psi[0, :]
+        rhs[:, 0] = plasma_psi[:, 0]
+        rhs[-1, :] = plasma_psi[-1, :]
+        rhs[:, -1] = plasma_psi[:, -1]
 
         # Call elliptic solver
-        plasma_psi = self._solver(self.plasma_psi, rhs)
+        plasma_psi = self._solver(plasma_psi, rhs)
 
         self._updatePlasmaPsi(plasma_psi)
 
-- 
2.43.0


From 7a04d395cf3fe16d5dec5d2fe0f9aca2fb26fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:11 +0000
Subject: [PATCH 47/66] fix: newDomain changed the profiles of the original
 equilibrium

---
 freegs/equilibrium.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index aa1d59c..39ba6b4 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -3,6 +3,7 @@ Defines class to represent the equilibrium
 state, including plasma and coil currents
 """
 
+import copy
 from typing import Optional
 
 from numpy import pi, meshgrid, linspace, exp, array
@@ -1393,7 +1394,9 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
     )
 
     # Calculate the current on the old grid
-    profiles = eq._profiles
+    # Note: Profiles keep values (e.g. their normalisation) from the last call
+    # to Jtor, so use a copy to leave those of the input equilibrium unchanged
+    profiles = copy.copy(eq._profiles)
     Jtor = profiles.Jtor(eq.R, eq.Z, eq.psi(), eq.psi_bndry)
 
     # Interpolate Jtor onto new grid
-- 
2.43.0


From 9da6d8e23bf89d0a11e4d63e4d6ebe07db727ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:18 +0000
Subject: [PATCH 48/66] fix: constraints and MultiCoils shared their default
 lists

---
 freegs/control.py    | 7 ++++---
 freegs/multi_coil.py | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index 042d498..5d298a7 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -58,10 +58,11 @@ class constrain(object):
         """
         Create an instance, specifying the constraints to apply
         """
-        self.xpoints = xpoints
+        # Copy, so that modifying these lists doesn't affect other instances
+        self.xpoints = list(xpoints)
         self.gamma = gamma
-        self.isoflux = isoflux
-        self.psivals = psivals
+        self.isoflux = list(isoflux)
+        self.psivals = list(psivals)
         self.current_lims = current_lims
         self.max_total_current = max_total_current
 
diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index ad217ef..952aeb5 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -140,7 +140,8 @@ class MultiCoil(Coil):
         self.current = current
         self.control = control
         self.mirror = mirror
-        self.polarity = polarity
+        # Copy, so that modifying it doesn't affect other coils
+        self.polarity = list(polarity)
         self.area = area
 
         # Internal (R,Z) value, should not be modified directly
-- 
2.43.0


From 7a37b3c5c3e98c9916c92a64b92ff4af13747aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:05 +0000
Subject: [PATCH 49/66] fix: coil labels containing a slash could be written to
 HDF5 but not read back

---
 freegs/dump.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/freegs/dump.py b/freegs/dump.py
index 2fbbf60..071047c 100644
--- a/freegs/dump.py
+++ b/freegs/dump.py
@@ -34,6 +34,8 @@ try:
 except ImportError:
     has_hdf5 = False
 
+import posixpath
+
 import numpy as np
 
 from .equilibrium import Equilibrium
@@ -181,6 +183,9 @@ class OutputFile(object):
                 dtype = type_to_dtype[coil.dtype]
             except KeyError:
                 raise ValueError(f"Could not save coil type {type(coil)}")
+            # Labels containing "/" are stored in sub-groups
+            if label.startswith("/") or posixpath.normpath(label) != label:
+                raise ValueError(f"Could not save coil label {label!r}")
             coils_group.create_dataset(
                 label, dtype=dtype, data=np.array(coil.to_numpy_array())
             )
@@ -212,9 +217,14 @@ class OutputFile(object):
 
         # Unfortunately this creates the coils in lexographical order
         # by label, losing the origin
-        coils = [
-            (toString(label), make_coil_set(coil)) for label, coil in coil_group.items()
-        ]
+        coils = []
+
+        def add_coil(label, item):
+            # Note: Labels containing "/" are stored in sub-groups
+            if isinstance(item, h5py.Dataset):
+                coils.append((toString(label), make_coil_set(item)))
+
+        coil_group.visititems(add_coil)
 
         if "wall_R" in tokamak_group:
             wall_R = tokamak_group["wall_R"][:]
-- 
2.43.0


From a675f4493ec639700915041792b77b58a1ede2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:23 +0000
Subject: [PATCH 50/66] fix: HDF5 files did not keep the number of limiter
 points

---
 freegs/dump.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/freegs/dump.py b/freegs/dump.py
index 071047c..0bcfd4c 100644
--- a/freegs/dump.py
+++ b/freegs/dump.py
@@ -176,6 +176,10 @@ class OutputFile(object):
         if equilibrium.tokamak.wall is not None:
             tokamak_group.create_dataset("wall_R", data=equilibrium.tokamak.wall.R)
             tokamak_group.create_dataset("wall_Z", data=equilibrium.tokamak.wall.Z)
+            if equilibrium.tokamak.limit_points_R is not None:
+                tokamak_group.create_dataset(
+                    "nlimit", data=len(equilibrium.tokamak.limit_points_R)
+                )
 
         coils_group = tokamak_group.create_group(self.COILS_GROUP_NAME)
         for label, coil in equilibrium.tokamak.coils:
@@ -233,10 +237,12 @@ class OutputFile(object):
         else:
             wall = None
 
-        # Note: Older files do not contain R0, order or check_limited
+        # Note: Older files do not contain R0, nlimit, order or check_limited
         options = {}
         if "R0" in tokamak_group:
             options["R0"] = tokamak_group["R0"][()]
+        if "nlimit" in tokamak_group:
+            options["nlimit"] = int(tokamak_group["nlimit"][()])
 
         tokamak = Machine(coils, wall, **options)
 
-- 
2.43.0


From 22138cfa44b1afeb8bf403b03e08c9fdd960db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:31 +0000
Subject: [PATCH 51/66] fix: bounded fits failed for coil currents given as
 integers

---
 freegs/control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index 5d298a7..20e42a1 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -396,7 +396,7 @@ class ConstrainPsi2DAdvanced(object):
         """
 
         tokamak = eq.getMachine()
-        start_currents = np.asarray(tokamak.controlCurrents())
+        start_currents = np.array(tokamak.controlCurrents(), dtype=float)
         ncontrols = len(start_currents)
 
         # In order for the optimisation to work, the initial guess must be within the
@@ -490,7 +490,7 @@ class ConstrainPsiNorm2DAdvanced(object):
         """
 
         tokamak = eq.getMachine()
-        start_currents = np.asarray(tokamak.controlCurrents())
+        start_currents = np.array(tokamak.controlCurrents(), dtype=float)
         ncontrols = len(start_currents)
 
         # In order for the optimisation to work, the initial guess must be within the
-- 
2.43.0


From b33d5b3f78931d902fcb2c11bb11e33ff1ff0bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:18 +0000
Subject: [PATCH 52/66] fix: PreCalcCoil failed or gave one value for a scalar
 R with an array of Z

---
 freegs/pre_calc_coil.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/freegs/pre_calc_coil.py b/freegs/pre_calc_coil.py
index a435a6c..8d50482 100644
--- a/freegs/pre_calc_coil.py
+++ b/freegs/pre_calc_coil.py
@@ -123,10 +123,7 @@ class PreCalcCoil(Coil):
         Calculate poloidal flux at (R,Z) due to a unit current.
         """
 
-        if isinstance(R, float) or isinstance(R, int):
-            result = self.cPsi(R, Z)[0][0]
-        else:
-            result = self.cPsi(R, Z, grid=False)
+        result = self.cPsi(R, Z, grid=False)
 
         # Maps are for 1 A-turn; toroidal current is current * turns
         return result * self.turns
@@ -136,10 +133,7 @@ class PreCalcCoil(Coil):
         Calculate radial magnetic field Br at (R,Z) due to a unit current.
         """
 
-        if isinstance(R, float) or isinstance(R, int):
-            result = self.cBr(R, Z)[0][0]
-        else:
-            result = self.cBr(R, Z, grid=False)
+        result = self.cBr(R, Z, grid=False)
 
         # Maps are for 1 A-turn; toroidal current is current * turns
         return result * self.turns
@@ -149,10 +143,7 @@ class PreCalcCoil(Coil):
         Calculate vertical magnetic field Br at (R,Z) due to a unit current.
         """
 
-        if isinstance(R, float) or isinstance(R, int):
-            result = self.cBz(R, Z)[0][0]
-        else:
-            result = self.cBz(R, Z, grid=False)
+        result = self.cBz(R, Z, grid=False)
 
         # Maps are for 1 A-turn; toroidal current is current * turns
         return result * self.turns
-- 
2.43.0


From 309f4985e19da021098a11c71ff984092f3ebcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:53 +0000
Subject: [PATCH 53/66] fix: find_critical raised LinAlgError when a Newton
 step was not defined

---
 freegs/critical.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index a6d6dbf..f2143ea 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -23,7 +23,7 @@ along with FreeGS.  If not, see <http://www.gnu.org/licenses/>.
 
 from scipy import interpolate
 from numpy import zeros
-from numpy.linalg import inv
+from numpy.linalg import inv, LinAlgError
 from numpy import (
     dot,
     linspace,
@@ -149,7 +149,11 @@ def find_critical(R, Z, psi, discard_xpoints=True):
                     J[1, 0] = -Bz / R1 + f(R1, Z1, dx=2) / R1
                     J[1, 1] = f(R1, Z1, dx=1, dy=1)[0][0] / R1
 
-                    d = dot(inv(J), [Br, Bz])
+                    try:
+                        d = dot(inv(J), [Br, Bz])
+                    except LinAlgError:
+                        # No Newton step from here, so discard this point
+                        break
 
                     R1 = R1 - d[0]
                     Z1 = Z1 - d[1]
-- 
2.43.0


From 1c07d367f9a4120689fdc89e908ce257f600e78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:17 +0000
Subject: [PATCH 54/66] fix: find_critical reported spurious points outside the
 domain

---
 freegs/critical.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/freegs/critical.py b/freegs/critical.py
index f2143ea..8fed3ec 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -115,6 +115,13 @@ def find_critical(R, Z, psi, discard_xpoints=True):
                     Bz = f(R1, Z1, dx=1, grid=False) / R1
 
                     if Br ** 2 + Bz ** 2 < 1e-6:
+                        if not (
+                            R[0, 0] <= R1 <= R[-1, 0] and Z[0, 0] <= Z1 <= Z[0, -1]
+                        ):
+                            # Outside the domain, where the spline
+                            # is constant. Discard this point
+                            break
+
                         # Found a minimum. Classify as either
                         # O-point or X-point
 
-- 
2.43.0


From ee5b382c690597ddc58efb9cdb85d791efe50180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:53 +0000
Subject: [PATCH 55/66] fix: tor_flux and rhotor counted from the first flux
 given, and rhotor was not a number for negative toroidal flux

---
 freegs/equilibrium.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 39ba6b4..b14c912 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -386,16 +386,26 @@ class Equilibrium:
         Calculates toroidal flux at specified values of poloidal flux.
         >>> q = drho/dpsi
         """
-        psiN = (psi - self.psi_axis) / (self.psi_bndry - self.psi_axis)
+        # Poloidal flux from the magnetic axis to the plasma boundary
+        psi_grid = np.linspace(self.psi_axis, self.psi_bndry, 101, endpoint=True)
+        psiN_grid = np.linspace(0.0, 1.0, 101, endpoint=True)
+
         # Get safety factor of these flux surfaces
-        qvals = self.q(psiN)
+        qvals = self.q(psiN_grid)
 
         # Integrate q wrt psi to get rho. rho = 0 @ psiN = 0
-        result = cumulative_trapezoid(qvals, psi, initial=0.0) * (-1.0 / (2.0 * np.pi))
+        torflux = cumulative_trapezoid(qvals, psi_grid, initial=0.0) * (
+            -1.0 / (2.0 * np.pi)
+        )
+        if psi is None:
+            return torflux
+
+        psiN = (np.asarray(psi) - self.psi_axis) / (self.psi_bndry - self.psi_axis)
+        result = np.interp(psiN, psiN_grid, torflux)
 
         # Convert to a scalar if only one result
-        if len(result) == 1:
-            return result[0]
+        if np.size(result) == 1:
+            return np.ravel(result)[0]
         return result
 
     def rhotor(self, psi=None):
@@ -408,18 +418,8 @@ class Equilibrium:
         Maximum toroidal flux shoud be at LCFS.
         """
 
-        torflux = self.tor_flux(psi)
-
-        psi = np.linspace(self.psi_axis, self.psi_bndry, 101, endpoint=True)
-        torflux_for_LCFS = self.tor_flux(psi)
-
-        max_torflux = np.max(torflux_for_LCFS)
-
-        result = np.sqrt(torflux / max_torflux)
-
-        if len(result) == 1:
-            return result[0]
-        return result
+        # Note: The toroidal flux can have either sign
+        return np.sqrt(self.tor_flux(psi) / self.tor_flux(self.psi_bndry))
 
     def pprime(self, psinorm):
         """
-- 
2.43.0


From d8210de9ad91a8c89ab61643d6d1385b1c1a6e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:19 +0000
Subject: [PATCH 56/66] fix: MultiCoil.plot drew on the current axis and not on
 the axis given

---
 freegs/multi_coil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 952aeb5..8dba47f 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -301,7 +301,7 @@ class MultiCoil(Coil):
             fig = plt.figure()
             axis = fig.add_subplot(111)
 
-        plt.plot(self.Rfil, self.Zfil, "bo")
+        axis.plot(self.Rfil, self.Zfil, "bo")
 
         return axis
 
-- 
2.43.0


From 7106fd9974f0cf54de7d18a060e5c73ce343e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:26 +0000
Subject: [PATCH 57/66] fix: flux and field of a PreCalcCoil did not follow its
 height

---
 freegs/pre_calc_coil.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/freegs/pre_calc_coil.py b/freegs/pre_calc_coil.py
index 8d50482..c01924a 100644
--- a/freegs/pre_calc_coil.py
+++ b/freegs/pre_calc_coil.py
@@ -113,7 +113,12 @@ class PreCalcCoil(Coil):
         self.mapBr = np.transpose(np.asarray(mapBr))
         self.mapBz = np.transpose(np.asarray(mapBz))
 
-        # Interpolators for the pre-calculated Green's functions
+        self._interpolateMaps()
+
+    def _interpolateMaps(self):
+        """
+        Interpolators for the pre-calculated Green's functions
+        """
         self.cPsi = RectBivariateSpline(self.Rgrid, self.Zgrid, self.mapPsi)
         self.cBr = RectBivariateSpline(self.Rgrid, self.Zgrid, self.mapBr)
         self.cBz = RectBivariateSpline(self.Rgrid, self.Zgrid, self.mapBz)
@@ -182,6 +187,9 @@ class PreCalcCoil(Coil):
         self._points = [(r, z + Zshift) for r, z in self._points]
         self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
+        # The maps move with the coil
+        self.Zgrid = self.Zgrid + Zshift
+        self._interpolateMaps()
 
     @property
     def area(self):
-- 
2.43.0


From 29152d202c01baea00443f11fd958523a78bd005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:12 +0000
Subject: [PATCH 58/66] fix: comparing coils of different kinds raised an
 exception

---
 freegs/coil.py        | 2 ++
 freegs/multi_coil.py  | 2 ++
 freegs/shaped_coil.py | 5 ++++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/freegs/coil.py b/freegs/coil.py
index 40e61ee..bfe256e 100644
--- a/freegs/coil.py
+++ b/freegs/coil.py
@@ -223,6 +223,8 @@ class Coil:
         )
 
     def __eq__(self, other):
+        if type(self) is not type(other):
+            return False  # A different kind of coil
         return (
             self.R == other.R
             and self.Z == other.Z
diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 8dba47f..0194be6 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -220,6 +220,8 @@ class MultiCoil(Coil):
         )
 
     def __eq__(self, other):
+        if type(self) is not type(other):
+            return False  # A different kind of coil
         return (
             list(self.Rfil) == list(other.Rfil)
             and list(self.Zfil) == list(other.Zfil)
diff --git a/freegs/shaped_coil.py b/freegs/shaped_coil.py
index f5a56a3..bf8c0c4 100644
--- a/freegs/shaped_coil.py
+++ b/freegs/shaped_coil.py
@@ -241,8 +241,11 @@ class ShapedCoil(Coil):
         )
 
     def __eq__(self, other):
+        if type(self) is not type(other):
+            return False  # A different kind of coil
         return (
-            np.allclose(self.shape, other.shape)
+            np.shape(self.shape) == np.shape(other.shape)
+            and np.allclose(self.shape, other.shape)
             and self.current == other.current
             and self.turns == other.turns
             and self.control == other.control
-- 
2.43.0


From 1f6933b63a6ae7b7d00293000eee913e45e9e730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:18 +0000
Subject: [PATCH 59/66] fix: filament and pre-calculated coils compared equal
 whatever their geometry

---
 freegs/filament_coil.py |  7 +++++++
 freegs/pre_calc_coil.py | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index b5ff883..9b4ff0a 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -313,6 +313,13 @@ class FilamentCoil(Coil):
             self.points, self.current, self.turns, self.control
         )
 
+    def __eq__(self, other):
+        return (
+            Coil.__eq__(self, other)
+            and np.array_equal(self.points, other.points)
+            and np.array_equal(self.shape, other.shape)
+        )
+
     @property
     def R(self):
         """
diff --git a/freegs/pre_calc_coil.py b/freegs/pre_calc_coil.py
index c01924a..faf0253 100644
--- a/freegs/pre_calc_coil.py
+++ b/freegs/pre_calc_coil.py
@@ -158,6 +158,17 @@ class PreCalcCoil(Coil):
             self.shape, self.current, self.turns, self.control
         )
 
+    def __eq__(self, other):
+        return (
+            Coil.__eq__(self, other)
+            and np.array_equal(self.shape, other.shape)
+            and np.array_equal(self.Rgrid, other.Rgrid)
+            and np.array_equal(self.Zgrid, other.Zgrid)
+            and np.array_equal(self.mapPsi, other.mapPsi)
+            and np.array_equal(self.mapBr, other.mapBr)
+            and np.array_equal(self.mapBz, other.mapBz)
+        )
+
     @property
     def R(self):
         """
-- 
2.43.0


From 3ed20d11f99d616a261e6213d5950d5bd947d724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:23 +0000
Subject: [PATCH 60/66] fix: comparing machines, walls and sensors of different
 make raised or said equal

---
 freegs/machine.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 20d10a1..0bcaaea 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -234,6 +234,8 @@ class Circuit:
         )
 
     def __eq__(self, other):
+        if type(self) is not type(other):
+            return False
         return (
             self.coils == other.coils
             and self.current == other.current
@@ -448,6 +450,8 @@ class Solenoid:
         )
 
     def __eq__(self, other):
+        if type(self) is not type(other):
+            return False
         return (
             self.Rs == other.Rs
             and self.Zsmin == other.Zsmin
@@ -498,7 +502,12 @@ class Wall:
         return "Wall(R={R}, Z={Z})".format(R=self.R, Z=self.Z)
 
     def __eq__(self, other):
-        return np.allclose(self.R, other.R) and np.allclose(self.Z, other.Z)
+        return (
+            isinstance(other, Wall)
+            and len(self.R) == len(other.R)
+            and np.allclose(self.R, other.R)
+            and np.allclose(self.Z, other.Z)
+        )
 
     def __ne__(self, other):
         return not self == other
@@ -523,7 +532,12 @@ class Sensor:
         return "R={R}, Z={Z}".format(R=self.R, Z=self.Z)
 
     def __eq__(self, other):
-        return np.allclose(self.R, other.R) and np.allclose(self.Z, other.Z)
+        return (
+            type(self) is type(other)
+            and np.shape(self.R) == np.shape(other.R)
+            and np.allclose(self.R, other.R)
+            and np.allclose(self.Z, other.Z)
+        )
 
     def __ne__(self, other):
         return not self == other
@@ -599,6 +613,9 @@ class PoloidalFieldSensor(Sensor):
     def __repr__(self):
         return "R={R}, Z={Z}, Theta={Theta}".format(R=self.R, Z=self.Z, Theta=self.theta)
 
+    def __eq__(self, other):
+        return Sensor.__eq__(self, other) and np.isclose(self.theta, other.theta)
+
     def get_measure(self, tokamak, eq):
         """
         Updates field attribute of sensor with measured field at that
@@ -689,7 +706,13 @@ class Machine:
     def __eq__(self, other):
         # Other Machine might be equivalent except for order of
         # coils. Assume this doesn't actually matter
-        return sorted(self.coils) == sorted(other.coils) and self.wall == other.wall
+        if not isinstance(other, Machine):
+            return False
+
+        def by_label(coils):
+            return sorted(coils, key=lambda item: item[0])
+
+        return by_label(self.coils) == by_label(other.coils) and self.wall == other.wall
 
     def __ne__(self, other):
         return not self == other
-- 
2.43.0


From 170bac4f0311e8b335e157e75119b33e3a84a2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:29 +0000
Subject: [PATCH 61/66] fix: plotting while reading a G-EQDSK failed when only
 an axis was given

---
 freegs/geqdsk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index c8c45b7..5795232 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -234,15 +234,15 @@ def read(
 
     """
 
+    if axis is not None:
+        show = True
+
     if show:
         import matplotlib.pyplot as plt
 
     if fit_sol and domain:
         raise ValueError("Sorry, fit_sol cannot be used with the domain keyword")
 
-    if axis is not None:
-        show = True
-
     # Read the data as a Dictionary
     data = geqdsk.read(fh, cocos=cocos)
 
-- 
2.43.0


From 9e92962b44df001250ea121d714d5ce06a20cf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:36 +0000
Subject: [PATCH 62/66] fix: find_safety ignored the number of surfaces asked
 for

---
 freegs/critical.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 8fed3ec..83a4a60 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -460,7 +460,7 @@ def find_separatrix(
 
 
 def find_safety(
-    eq, npsi=1, psinorm=None, ntheta=128, psi=None, opoint=None, xpoint=None, axis=None
+    eq, npsi=100, psinorm=None, ntheta=128, psi=None, opoint=None, xpoint=None, axis=None
 ):
     """Find the safety factor for each value of psi
     Calculates equally spaced flux surfaces. Points on
@@ -511,7 +511,6 @@ def find_safety(
         theta_grid += dtheta / 2
 
     if psinorm is None:
-        npsi = 100
         psirange = linspace(1.0 / (npsi + 1), 1.0, npsi, endpoint=False)
     else:
         try:
-- 
2.43.0


From 995756b63108bd4b3a2d2cfa3c120b5b96378fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:11 +0000
Subject: [PATCH 63/66] fix: newDomain changed the boundary flux of the given
 equilibrium

---
 freegs/equilibrium.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index b14c912..549a1f7 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1397,6 +1397,9 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
     # Note: Profiles keep values (e.g. their normalisation) from the last call
     # to Jtor, so use a copy to leave those of the input equilibrium unchanged
     profiles = copy.copy(eq._profiles)
+    if hasattr(profiles, "eq"):
+        # May update the boundary flux of its equilibrium
+        profiles.eq = copy.copy(eq)
     Jtor = profiles.Jtor(eq.R, eq.Z, eq.psi(), eq.psi_bndry)
 
     # Interpolate Jtor onto new grid
-- 
2.43.0


From 2a248de4a28c08854f69871ea758ad52faf24613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 64/66] fix: no core mask for a limited plasma without X-points

---
 freegs/equilibrium.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 549a1f7..3940b1c 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -621,7 +621,16 @@ class Equilibrium:
                     # No xpoints, therefore psi_bndry = psi_limit
                     self.psi_bndry = self.psi_limit
                     self.is_limited = True
-                    self.mask = None
+
+                    # Mask the core
+                    self.mask = critical.core_mask(
+                        self.R, self.Z, psi, opt, xpt, self.psi_bndry
+                    )
+
+                    # Use interpolation to find if a point is in the core.
+                    self.mask_func = interpolate.RectBivariateSpline(
+                        self.R[:, 0], self.Z[0, :], self.mask
+                    )
 
             else:
                 # Either a wall was not provided or the user did not wish to
-- 
2.43.0


From ea6e13fb74ac7500fa49d9ae62d2cb8603be5f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:08 +0000
Subject: [PATCH 65/66] fix: separatrix and safety factor of a limited plasma
 without X-points

---
 freegs/critical.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 83a4a60..4e571f0 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -403,7 +403,8 @@ def find_separatrix(
 ):
     """Find the R, Z coordinates of the separatrix for equilbrium
     eq. Returns a tuple of (R, Z, R_X, Z_X), where R_X, Z_X are the
-    coordinates of the X-point on the separatrix. Points are equally
+    coordinates of the X-point on the separatrix, or of the wall contact
+    of a limited plasma without X-points. Points are equally
     spaced in geometric poloidal angle.
 
     If opoint, xpoint or psi are not given, they are calculated from eq
@@ -421,6 +422,15 @@ def find_separatrix(
     if (opoint is None) or (xpoint is None):
         opoint, xpoint = find_critical(eq.R, eq.Z, psi)
 
+    if xpoint:
+        # The X-point on the separatrix
+        rx, zx = xpoint[0][0:2]
+    elif eq.is_limited:
+        # No X-point in the domain, so use the point where the wall is touched
+        rx, zx = eq.Rlim, eq.Zlim
+    else:
+        raise ValueError("No X-point so no separatrix")
+
     psinorm = (psi - opoint[0][2]) / (eq.psi_bndry - opoint[0][2])
 
     psifunc = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], psinorm)
@@ -431,7 +441,7 @@ def find_separatrix(
     dtheta = theta_grid[1] - theta_grid[0]
 
     # Avoid putting theta grid points exactly on the X-points
-    xpoint_theta = arctan2(xpoint[0][0] - r0, xpoint[0][1] - z0)
+    xpoint_theta = arctan2(rx - r0, zx - z0)
     xpoint_theta = xpoint_theta * (xpoint_theta >= 0) + (xpoint_theta + 2 * pi) * (
         xpoint_theta < 0
     )  # let's make it between 0 and 2*pi
@@ -454,7 +464,7 @@ def find_separatrix(
             axis=axis,
             n=1000,
         )
-        isoflux.append((r, z, xpoint[0][0], xpoint[0][1]))
+        isoflux.append((r, z, rx, zx))
 
     return isoflux
 
@@ -483,13 +493,18 @@ def find_safety(
     if (opoint is None) or (xpoint is None):
         opoint, xpoint = find_critical(eq.R, eq.Z, psi)
 
-    if (xpoint is None) or (len(xpoint) == 0):
+    if xpoint:
+        rx, zx = xpoint[0][0:2]
+    elif eq.is_limited:
+        # No X-point in the domain, so use the point where the wall is touched
+        rx, zx = eq.Rlim, eq.Zlim
+    else:
         # No X-point
         raise ValueError("No X-point so no separatrix")
-    else:
-        # The boundary of a limited plasma is not at the X-point
-        psi_bndry = eq.psi_bndry if eq.is_limited else xpoint[0][2]
-        psinormal = (psi - opoint[0][2]) / (psi_bndry - opoint[0][2])
+
+    # The boundary of a limited plasma is not at the X-point
+    psi_bndry = eq.psi_bndry if eq.is_limited else xpoint[0][2]
+    psinormal = (psi - opoint[0][2]) / (psi_bndry - opoint[0][2])
 
     psifunc = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], psinormal)
 
@@ -499,7 +514,7 @@ def find_safety(
     dtheta = theta_grid[1] - theta_grid[0]
 
     # Avoid putting theta grid points exactly on the X-points
-    xpoint_theta = arctan2(xpoint[0][0] - r0, xpoint[0][1] - z0)
+    xpoint_theta = arctan2(rx - r0, zx - z0)
     xpoint_theta = xpoint_theta * (xpoint_theta >= 0) + (xpoint_theta + 2 * pi) * (
         xpoint_theta < 0
     )  # let's make it between 0 and 2*pi
-- 
2.43.0


From 491fb927548f1f834946a14cd95e6794cc6cc656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:15 +0000
Subject: [PATCH 66/66] fix: boundary of a limited plasma without X-points was
 not drawn

---
 freegs/plotting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/freegs/plotting.py b/freegs/plotting.py
index 6212835..0afe118 100644
--- a/freegs/plotting.py
+++ b/freegs/plotting.py
@@ -107,11 +107,15 @@ def plotEquilibrium(eq, axis=None, show=True, oxpoints=True, wall=True, plot_sen
             axis.plot(r, z, "go")
 
         if xpt:
+            # Add legend
+            axis.plot([], [], "rx", label="X-points")
+
+        # A limited plasma has a boundary, also without X-points
+        if xpt or eq.is_limited:
             psi_bndry = eq.psi_bndry  # xpt[0][2]
             axis.contour(eq.R, eq.Z, psi, levels=[psi_bndry], colors="r")
 
             # Add legend
-            axis.plot([], [], "rx", label="X-points")
             axis.plot([], [], "r", label="Separatrix")
         if opt:
             axis.plot([], [], "go", label="O-points")
-- 
2.43.0

