From db58f3228ec06cfd0ff5bc9e63368409fe541e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:51 +0000
Subject: [PATCH 01/22] fix: circular orbits no longer raise a domain error
 when converted to elements

For a circular orbit p / a is 1 and rounding puts it above 1 about 40% of the
time, so sqrt(1 - p / a) raised ValueError in ClassicalElements.from_ijk.
---
 src/openspace/math/functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index c6dcfde..fd7edb6 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -173,7 +173,12 @@ class Eccentricity:
            but :math:`km` is the preferred unit throughout this package to ensure computational
            consistency and accuracy.
         """
-        return sqrt(1 - p / a)
+        arg: float = 1 - p / a
+
+        # rounding can leave p / a marginally above 1 for a circular orbit
+        if arg < 0:
+            arg = 0
+        return sqrt(arg)
 
 
 class Flattening:
-- 
2.43.0


From 10b1e23abb55d4971ab5195ddf0ceca533368bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:53 +0000
Subject: [PATCH 02/22] fix: equatorial orbits keep their in-plane position
 when converted to elements

Without a node the argument of latitude collapsed to atan2(0, 0), so every
equatorial state came back on the -x axis (or at -perigee) from the elements.
---
 src/openspace/estimation/iod.py |  7 +++----
 src/openspace/math/functions.py | 11 ++++++++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 91dd2d0..9354189 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -4,6 +4,7 @@ from openspace.bodies.celestial import Earth
 from openspace.coordinates.elements import ClassicalElements
 from openspace.estimation.obs import Observation
 from openspace.math.constants import SECONDS_IN_DAY
+from openspace.math.functions import EquationsOfMotion
 from openspace.math.linalg import Vector3D
 
 
@@ -39,13 +40,11 @@ class Gauss:
 
         # equation 2.111
         w: Vector3D = ea.cross(e0)
-        ua: float = atan2(ra.z, -ra.x * w.y + ra.y * w.x)
+        ua: float = EquationsOfMotion.U.from_r_w(ra, w)
         inc: float = atan2(sqrt(w.x * w.x + w.y * w.y), w.z)
-        raan: float = atan2(w.x, -w.y)
+        raan: float = EquationsOfMotion.RAAN.from_w(w)
         if inc < 0:
             inc += 2 * pi
-        if raan < 0:
-            raan += 2 * pi
 
         # equation 2.99
         tau: float = sqrt(Earth.MU) * (ob2.epoch().value - ob1.epoch().value) * SECONDS_IN_DAY
diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index fd7edb6..c73c5d2 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -441,6 +441,10 @@ class RightAscensionNode:
 
            document equation reference from Satellite Orbits
         """
+        # the node of an equatorial orbit is undefined, so the x axis is used by convention
+        if w.x == 0 and w.y == 0:
+            return 0.0
+
         raan: float = atan2(w.x, -w.y)
         if raan < 0:
             raan += 2 * pi
@@ -849,7 +853,12 @@ class ArgumentOfLatitude:
 
            find equation reference
         """
-        u: float = atan2(r.z, -r.x * w.y + r.y * w.x)
+        u: float
+        if w.x == 0 and w.y == 0:
+            # measure from the x axis when the orbit is equatorial and has no node
+            u = atan2(r.y * sign(w.z), r.x)
+        else:
+            u = atan2(r.z, -r.x * w.y + r.y * w.x)
         if u < 0:
             u += 2 * pi
         return u
-- 
2.43.0


From 870932835a696146e9b05a73cca8eff8e28a31fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:55 +0000
Subject: [PATCH 03/22] fix: geodetic latitude near the poles no longer raises
 a domain error

Rounding pushes the sine of the latitude past 1 for about half of all positions
close to a pole.
---
 src/openspace/coordinates/positions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/openspace/coordinates/positions.py b/src/openspace/coordinates/positions.py
index 026b5cf..6cde2b8 100644
--- a/src/openspace/coordinates/positions.py
+++ b/src/openspace/coordinates/positions.py
@@ -253,6 +253,10 @@ class _PositionConvertITRF:
         # Equation 2.77f
         n: float = a * sqrt(1.0 + eps2 * d * d / b2)
         arg = (eps2 + 1.0) * (d / n)
+        if arg > 1:
+            arg = 1
+        elif arg < -1:
+            arg = -1
         lamb: float = asin(arg)
 
         # Equation 2.77g
-- 
2.43.0


From f3bb03f8aae001ed0492207c8334da281d7c8db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:57 +0000
Subject: [PATCH 04/22] fix: lunar latitude series adds the solar anomaly term
 outside sin(2F)

Equation 3.49 is sin(F + lambda - L0 + 412" sin 2F + 541" sin l'); the last term
was nested inside sin 2F, which put the moon up to 49" out of latitude.
---
 src/openspace/bodies/celestial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/celestial.py b/src/openspace/bodies/celestial.py
index 7838e72..4749e71 100644
--- a/src/openspace/bodies/celestial.py
+++ b/src/openspace/bodies/celestial.py
@@ -313,7 +313,7 @@ class Moon:
 
         # Equation 3.49
         beta = (
-            a0 * sin(f + lam - l0 + a1 * sin(2.0 * f + a2 * sin(lp)))
+            a0 * sin(f + lam - l0 + a1 * sin(2.0 * f) + a2 * sin(lp))
             - a3 * sin(f - 2.0 * d)
             + a4 * sin(l + f - 2.0 * d)
             - a5 * sin(-l + f - 2.0 * d)
-- 
2.43.0


From 5ded3ee882d8c893d05c9af2dad0d96abee1d0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:59 +0000
Subject: [PATCH 05/22] fix: Gauss orbit determination handles trial values
 with omega <= 0

The secant start overshoots into omega < 0 for eccentric orbits (e > 0.65) seen
around perigee and asin(sqrt(w)) raised ValueError. Use the remaining two branches of
equation 2.103.
---
 src/openspace/estimation/iod.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 9354189..49f5a90 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -1,4 +1,4 @@
-from math import asin, atan2, cos, pi, sin, sqrt
+from math import asin, atan2, cos, log, pi, sin, sinh, sqrt
 
 from openspace.bodies.celestial import Earth
 from openspace.coordinates.elements import ClassicalElements
@@ -142,6 +142,13 @@ class Gauss:
         :return: w(omega)
         :rtype: float
         """
-        g: float = 2 * asin(sqrt(w))
-        sg: float = sin(g)
+        if w == 0:
+            return 4 / 3
+        if w < 0:
+            # reached by trial values of nu on eccentric orbits close to perigee
+            g: float = 2 * log(sqrt(-w) + sqrt(1 - w))
+            sg: float = sinh(g)
+            return (sinh(2 * g) - 2 * g) / (sg * sg * sg)
+        g = 2 * asin(sqrt(w))
+        sg = sin(g)
         return (2 * g - sin(2 * g)) / (sg * sg * sg)
-- 
2.43.0


From a39bdc8483cd9c8e27e3cfbbf259f5e675259e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:01 +0000
Subject: [PATCH 06/22] fix: finite maneuver burns along the commanded radial,
 in-track, cross-track direction

The frame matrix takes inertial vectors to RIC; the burn needs its transpose.
---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index ab06592..6d01842 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -147,7 +147,7 @@ class Spacecraft:
         :param dt: duration of the maneuver in days
         :type dt: float
         """
-        gcrf_thrust: Vector3D = HCW.frame_matrix(self.current_state()).multiply_vector(ric_dv)
+        gcrf_thrust: Vector3D = HCW.frame_matrix(self.current_state()).transpose().multiply_vector(ric_dv)
         self.propagator.maneuver(
             gcrf_thrust,
             self.m_dot,
-- 
2.43.0


From dbdcfbbbaddaae31f67a365c6156243141f03d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:03 +0000
Subject: [PATCH 07/22] fix: finite maneuver consumes propellant instead of
 creating it

---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 6d01842..51823fc 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -155,7 +155,7 @@ class Spacecraft:
             self.isp,
         )
         m_spec: float = self.m_dot / self.total_mass()
-        dt: float = (-1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
+        dt: float = (1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
         self.propellant_mass -= self.m_dot * dt
 
     def sma(self) -> float:
-- 
2.43.0


From d4776a3ab8a080067d7b59583f0a7562fd805d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:05 +0000
Subject: [PATCH 08/22] fix: finite maneuvers longer than one step deliver the
 commanded delta-v

The burn duration follows from the rocket equation but every integration step
restarted from the full initial mass.
---
 src/openspace/propagators/inertial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index 82e660a..a733a9e 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -73,6 +73,9 @@ class RK4:
             self.state.velocity.plus(da.scaled(h)),
         )
 
+        # Propellant burned during this step is gone when the next one starts
+        self.m0 -= self.m_dot * h
+
     def maneuver(self, gcrf_thrust: Vector3D, m_dot: float, m0: float, isp: float) -> None:
         """propagate the state using continuous thrust principles
 
-- 
2.43.0


From 0f9b9aeee1de0c11dca004d320e31db7dd4203b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:07 +0000
Subject: [PATCH 09/22] fix: visual magnitude uses the target's size and
 albedo, not the observer's

---
 src/openspace/bodies/artificial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 51823fc..47bc010 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -351,7 +351,7 @@ class Spacecraft:
         :rtype: float
         """
         # Store the target's body radius
-        r: float = self.body_radius
+        r: float = target.body_radius
 
         # Calculate the range to the target
         dist: float = self.range(target)
@@ -360,7 +360,7 @@ class Spacecraft:
         phi: float = pi - self.sun_angle(target)
 
         # Calculate the flux and vismag
-        fdiff: float = (2 / 3) * self.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))
+        fdiff: float = (2 / 3) * target.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))
         return -26.74 - 2.5 * log10(fdiff)
 
     def sun_angle(self, target: "Spacecraft") -> float:
-- 
2.43.0


From d07e0c06f10cd13d1367d8ea33cb3f74814c39da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:08 +0000
Subject: [PATCH 10/22] fix: tracking a different target while already
 target-pointing switches to it

---
 src/openspace/bodies/artificial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 47bc010..d682765 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -303,10 +303,11 @@ class Spacecraft:
         :param target: spacecraft to be tracked
         :type target: Spacecraft
         """
+        self.tracked_target = target
+
         # Include slew duration if not already target-pointing
         if self.steering != Spacecraft.STEERING_MODES[2]:
             self.steering = Spacecraft.STEERING_MODES[2]
-            self.tracked_target = target
             self.slewing = True
             t: float = self.body_z.angle(self.target_vector(target)) * self.slew_scalar
             self.slew_stop = self.current_epoch().plus_days(t)
-- 
2.43.0


From e456836c4b8fd032d402dc64f5152c0495fe50ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:10 +0000
Subject: [PATCH 11/22] fix: propagation honours use_perturbations and
 maneuvers keep propagator settings

The switch was dropped by copy(), by every integration stage and by impulsive
maneuvers, which also reset the step size chosen for the propagator.
---
 src/openspace/bodies/artificial.py    |  6 ++++--
 src/openspace/coordinates/states.py   | 10 ++++++++++
 src/openspace/propagators/inertial.py |  5 +++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index d682765..480c598 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -135,9 +135,11 @@ class Spacecraft:
         :param ric_burn: burn vector with components of radial, in-track, and cross-track (km/s)
         :type ric_burn: Vector3D
         """
-        self.propagator = RK4(
-            StateConvert.hcw.to_gcrf(HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), self.current_state())
+        state: GCRF = StateConvert.hcw.to_gcrf(
+            HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), self.current_state()
         )
+        state.use_perturbations = self.propagator.state.use_perturbations
+        self.propagator.state = state
 
     def finite_maneuver(self, ric_dv: Vector3D) -> None:
         """perform a maneuver using ric acceleration accross a specified time
diff --git a/src/openspace/coordinates/states.py b/src/openspace/coordinates/states.py
index 94c7602..31173be 100644
--- a/src/openspace/coordinates/states.py
+++ b/src/openspace/coordinates/states.py
@@ -137,6 +137,16 @@ class GCRF(State):
         #: boolean to determine if perturbations are modeled during propagation
         self.use_perturbations: bool = True
 
+    def copy(self) -> "GCRF":
+        """create a duplicate of the calling state that keeps its perturbation setting
+
+        :return: replica of the calling state
+        :rtype: GCRF
+        """
+        state: GCRF = super().copy()
+        state.use_perturbations = self.use_perturbations
+        return state
+
     def acceleration_from_gravity(self) -> Vector3D:
         """calculates the gravity due to a nonspherical earth
 
diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index a733a9e..d0c825f 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -51,15 +51,18 @@ class RK4:
         ddays: float = dsecs / SECONDS_IN_DAY
         epoch_1 = epoch_0.plus_days(ddays)
         y1: GCRF = GCRF(epoch_1, y[0].plus(k1[0].scaled(dsecs)), y[1].plus(k1[1].scaled(dsecs)))
+        y1.use_perturbations = self.state.use_perturbations
         y1.thrust = self.thrust_vector(dsecs)
         k2: List[Vector3D] = y1.derivative()
 
         y2: GCRF = GCRF(epoch_1, y[0].plus(k2[0].scaled(dsecs)), y[1].plus(k2[1].scaled(dsecs)))
+        y2.use_perturbations = self.state.use_perturbations
         y2.thrust = self.thrust_vector(dsecs)
         k3: List[Vector3D] = y2.derivative()
 
         epoch_2 = epoch_1.plus_days(ddays)
         y3: GCRF = GCRF(epoch_2, y[0].plus(k3[0].scaled(h)), y[1].plus(k3[1].scaled(h)))
+        y3.use_perturbations = self.state.use_perturbations
         y3.thrust = self.thrust_vector(dsecs * 2)
         k4: List[Vector3D] = y3.derivative()
 
@@ -67,11 +70,13 @@ class RK4:
         dv: Vector3D = k1[0].plus(k2[0].scaled(2).plus(k3[0].scaled(2).plus(k4[0]))).scaled(coeff)
         da: Vector3D = k1[1].plus(k2[1].scaled(2).plus(k3[1].scaled(2).plus(k4[1]))).scaled(coeff)
 
+        use_perturbations: bool = self.state.use_perturbations
         self.state = GCRF(
             epoch_2,
             self.state.position.plus(dv.scaled(h)),
             self.state.velocity.plus(da.scaled(h)),
         )
+        self.state.use_perturbations = use_perturbations
 
         # Propellant burned during this step is gone when the next one starts
         self.m0 -= self.m_dot * h
-- 
2.43.0


From cc509207e505cb51c337b369326ecaf51d69fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:13 +0000
Subject: [PATCH 12/22] fix: body axes follow the steering mode after a
 maneuver

---
 src/openspace/bodies/artificial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 480c598..0d70865 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -140,6 +140,7 @@ class Spacecraft:
         )
         state.use_perturbations = self.propagator.state.use_perturbations
         self.propagator.state = state
+        self.update_attitude()
 
     def finite_maneuver(self, ric_dv: Vector3D) -> None:
         """perform a maneuver using ric acceleration accross a specified time
@@ -159,6 +160,7 @@ class Spacecraft:
         m_spec: float = self.m_dot / self.total_mass()
         dt: float = (1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
         self.propellant_mass -= self.m_dot * dt
+        self.update_attitude()
 
     def sma(self) -> float:
         """calculate the semi-major axis of the calling spacecraft
-- 
2.43.0


From 58fa0ceb229298d11793f1ef5872419992d2a619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:14 +0000
Subject: [PATCH 13/22] fix: angular noise can be applied to a vector along the
 z axis

---
 src/openspace/math/linalg.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/openspace/math/linalg.py b/src/openspace/math/linalg.py
index 4df3fe1..ffe85f7 100644
--- a/src/openspace/math/linalg.py
+++ b/src/openspace/math/linalg.py
@@ -168,9 +168,12 @@ class Vector3D:
         :return: new vector offset using gaussian distribution for the angle
         :rtype: Vector3D
         """
-        return self.rotation_about_axis(self.cross(Vector3D(0, 0, 1)), gauss(0, ang_err)).rotation_about_axis(
-            self, uniform(0, 2 * pi)
-        )
+        axis: Vector3D = self.cross(Vector3D(0, 0, 1))
+
+        # any perpendicular axis will do for a vector along z
+        if axis.magnitude() == 0:
+            axis = Vector3D(1, 0, 0)
+        return self.rotation_about_axis(axis, gauss(0, ang_err)).rotation_about_axis(self, uniform(0, 2 * pi))
 
     def __str__(self) -> str:
         """overrides the string method so the elements can be viewed
-- 
2.43.0


From 67e21854cf9bcf540c60ef033c42a4a15cc93862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:30 +0000
Subject: [PATCH 14/22] fix: slew toward an out-of-date target is sized on its
 direction at the current epoch

---
 src/openspace/bodies/artificial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 0d70865..2cc172f 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -309,6 +309,10 @@ class Spacecraft:
         """
         self.tracked_target = target
 
+        # Size the slew on the direction to be held, so bring the target to the current epoch first
+        if target.current_epoch().value != self.current_epoch().value:
+            target.step_to_epoch(self.current_epoch())
+
         # Include slew duration if not already target-pointing
         if self.steering != Spacecraft.STEERING_MODES[2]:
             self.steering = Spacecraft.STEERING_MODES[2]
-- 
2.43.0


From 8ea392566a65793969287218d724c55a65ab5cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:12 +0000
Subject: [PATCH 15/22] fix: Kepler's equation is solved for mean anomalies
 beyond one revolution

---
 src/openspace/math/functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index c73c5d2..0b0c6f2 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -727,6 +727,9 @@ class EccentricAnomaly:
         :rtype: float
         """
         converged: bool = False
+
+        # the starting guess is only good within one revolution
+        ma = ma % (2 * pi)
         ea0: float = ma
         num: float
         den: float
-- 
2.43.0


From 0ca32a1f2968a088545e2143a96a97cd5e1792dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:42 +0000
Subject: [PATCH 16/22] fix: Gauss orbit determination stays in its domain for
 arcs close to 180 degrees

---
 src/openspace/estimation/iod.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 49f5a90..7ce0da5 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -103,12 +103,17 @@ class Gauss:
         :return: nu at index i + 1
         :rtype: float
         """
+        # omega cannot exceed one, so nu has a lower bound
+        n_min: float = sqrt(m / (1 + l))
+
         converged: bool = False
         f_of_nu_1: float
         n2: float
         while not converged:
             f_of_nu_1 = Gauss.f_of_nu(n1, m, l)
             n2 = n1 - f_of_nu_1 * (n1 - n0) / (f_of_nu_1 - Gauss.f_of_nu(n0, m, l))
+            if n2 <= n_min:
+                n2 = (n1 + n_min) / 2
             if abs(n2 - n1) < Gauss.NU_TOLERANCE:
                 converged = True
             else:
-- 
2.43.0


From 0cd7d707757f2ff610adfa7cdb42f80fd6f26267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:04 +0000
Subject: [PATCH 17/22] fix: Gauss orbit determination keeps the eccentricity
 when the first look is at the semilatus rectum

---
 src/openspace/estimation/iod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 7ce0da5..0ef0299 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -75,7 +75,7 @@ class Gauss:
         if ta < 0:
             ta += 2 * pi
 
-        e: float = ecosva / cos(ta)
+        e: float = sqrt(ecosva * ecosva + esinva * esinva)
 
         aop: float = ua - ta
         if aop < 0:
-- 
2.43.0


From 663f6b4ce56d5f040838cc7621839b7cbe0ab31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:26 +0000
Subject: [PATCH 18/22] fix: copies of an inertial state keep its thrust

---
 src/openspace/coordinates/states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openspace/coordinates/states.py b/src/openspace/coordinates/states.py
index 31173be..6e0a60e 100644
--- a/src/openspace/coordinates/states.py
+++ b/src/openspace/coordinates/states.py
@@ -138,13 +138,14 @@ class GCRF(State):
         self.use_perturbations: bool = True
 
     def copy(self) -> "GCRF":
-        """create a duplicate of the calling state that keeps its perturbation setting
+        """create a duplicate of the calling state that keeps its thrust and perturbation setting
 
         :return: replica of the calling state
         :rtype: GCRF
         """
         state: GCRF = super().copy()
         state.use_perturbations = self.use_perturbations
+        state.thrust = self.thrust.copy()
         return state
 
     def acceleration_from_gravity(self) -> Vector3D:
-- 
2.43.0


From 753b0eaf429580fa405f4b9fcb5ea118f2b24df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:20 +0000
Subject: [PATCH 19/22] fix: vector_list returns copies of a state's position
 and velocity

---
 src/openspace/coordinates/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/coordinates/states.py b/src/openspace/coordinates/states.py
index 6e0a60e..5ee7c2c 100644
--- a/src/openspace/coordinates/states.py
+++ b/src/openspace/coordinates/states.py
@@ -42,7 +42,7 @@ class State:
         :return: list of indices 0 == position and 1 == velocity
         :rtype: List[Vector3D]
         """
-        return [self.position, self.velocity]
+        return [self.position.copy(), self.velocity.copy()]
 
 
 class ITRF(State):
-- 
2.43.0


From 45fb88a646d9dcbb1fcbc9b8b97e8057680a7c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:22 +0000
Subject: [PATCH 20/22] fix: the epoch returned by an observation is a copy

---
 src/openspace/estimation/obs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openspace/estimation/obs.py b/src/openspace/estimation/obs.py
index 3390b62..4bf1f0b 100644
--- a/src/openspace/estimation/obs.py
+++ b/src/openspace/estimation/obs.py
@@ -62,7 +62,7 @@ class SpaceObservation(Observation):
         :return: valid epoch of the observation
         :rtype: Epoch
         """
-        return self.observer_state.epoch
+        return self.observer_state.epoch.copy()
 
     def ijk_position(self) -> Vector3D:
         """calculate the inertial position of the observation
@@ -142,7 +142,7 @@ class GroundObservation(Observation):
         :return: valid epoch of the observation
         :rtype: Epoch
         """
-        return self.observer_state.epoch
+        return self.observer_state.epoch.copy()
 
     def ijk_position(self) -> Vector3D:
         """calculate the inertial position of the observation
-- 
2.43.0


From dfa6388745092b9a907dc64059d90fdf74391fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:05 +0000
Subject: [PATCH 21/22] fix: geodetic latitude keeps full precision near the
 equator and at high altitude

---
 src/openspace/coordinates/positions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/openspace/coordinates/positions.py b/src/openspace/coordinates/positions.py
index 6cde2b8..321c44d 100644
--- a/src/openspace/coordinates/positions.py
+++ b/src/openspace/coordinates/positions.py
@@ -259,6 +259,12 @@ class _PositionConvertITRF:
             arg = -1
         lamb: float = asin(arg)
 
+        # the closed form loses digits near the equator and the poles, so recover them with Bowring's iteration
+        for _ in range(2):
+            beta: float = atan2((1.0 - f) * sin(lamb), cos(lamb))
+            lamb = atan2(z + eps2 * b * sin(beta) ** 3, rho - e2 * a * cos(beta) ** 3)
+        n = a / sqrt(1.0 - e2 * sin(lamb) * sin(lamb))
+
         # Equation 2.77g
         h: float = rho * cos(lamb) + z * sin(lamb) - a2 / n
         phi: float = atan2(y, x)
-- 
2.43.0


From 7e11e5c3c1629b995f94347e5479d3455c421961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:36 +0000
Subject: [PATCH 22/22] fix: acquire starts the filter from the seed's state at
 the current epoch

---
 src/openspace/bodies/artificial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 2cc172f..f24f67a 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -177,10 +177,11 @@ class Spacecraft:
         :type seed: Spacecraft
         """
 
+        # Bring the seed to the current epoch before its relative state is used to start the filter
+        self.track_state(seed)
         self.filter = RelativeKalman(
             self.current_epoch(), Hill(StateConvert.gcrf.to_hcw(self.current_state(), seed.current_state()), self.sma())
         )
-        self.track_state(seed)
 
     def observe_wfov(self, target: "Spacecraft") -> SpaceObservation:
         """produce a simulated observation from the wfov
-- 
2.43.0

