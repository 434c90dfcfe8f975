From 2e66d4e0a94661e5d4ac5c958dce37264cc97b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:35 +0000
Subject: [PATCH 01/22] fix: apply the prime meridian in spherical datum
 conversions

llh_to_xyz and xyz_to_llh ignored the datum's prime meridian when the
ellipsoid is a sphere, so a longitude relative to e.g. Paris was treated as
a Greenwich longitude.
---
 geokit/src/geodesy/geodetic_datum.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geokit/src/geodesy/geodetic_datum.rs b/geokit/src/geodesy/geodetic_datum.rs
index b629142..1959f4c 100644
--- a/geokit/src/geodesy/geodetic_datum.rs
+++ b/geokit/src/geodesy/geodetic_datum.rs
@@ -76,7 +76,7 @@ impl GeodeticDatum {
         let lon = llh.lon + self.prime_meridian.lon().angle();
 
         if self.ellipsoid.is_spherical() {
-            let (sin_lon, cos_lon) = llh.lon.sin_cos();
+            let (sin_lon, cos_lon) = lon.sin_cos();
             let (sin_lat, cos_lat) = llh.lat.sin_cos();
             let d = self.ellipsoid.a() + llh.height;
             let z = d * sin_lat;
@@ -115,7 +115,8 @@ impl GeodeticDatum {
             let lat = z.atan2(r);
             let h = r.hypot(z) - a;
             LLH {
-                lon: Lon::new(lon * RAD),
+                // Change longitude origin from Greenwich meridian to this datum's prime meridian
+                lon: Lon::new(lon * RAD) - self.prime_meridian().lon().angle(),
                 lat: Lat::new(lat * RAD),
                 height: h * M,
             }
-- 
2.43.0


From 9692595995f37077abceed72da873d9a44df8d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:35 +0000
Subject: [PATCH 02/22] fix: make the SPHERE ellipsoid an actual sphere

Its radius was given as the inverse flattening, yielding b = a - 1 m and
is_spherical() == false.
---
 geokit/src/geodesy/ellipsoid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/geodesy/ellipsoid.rs b/geokit/src/geodesy/ellipsoid.rs
index b49769d..65ef4d7 100644
--- a/geokit/src/geodesy/ellipsoid.rs
+++ b/geokit/src/geodesy/ellipsoid.rs
@@ -277,7 +277,7 @@ pub mod consts {
         WGS66 => ("WGS 66", a = 6_378_145., invf = 298.25),
         WGS72 => ("WGS 72", a = 6_378_135., invf = 298.26),
         WGS84 => ("WGS 84", a = 6_378_137., invf = 298.257_223_563),
-        SPHERE => ("Normal Sphere (r=6370997)", a = 6_370_997., invf = 6_370_997.)
+        SPHERE => ("Normal Sphere (r=6370997)", a = 6_370_997., b = 6_370_997.)
     }
 }
 
-- 
2.43.0


From b5989f9437753dd6465cb7683f09a8682df13b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:02 +0000
Subject: [PATCH 03/22] fix: keep remainder() within half a period for large
 values

The quotient and product were rounded, so wrapping an angle of several turns
could yield a value outside of [-pi, pi] (by an ulp for e.g. 9 * pi, by whole
turns for very large angles).
---
 geokit/src/math/fp.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/geokit/src/math/fp.rs b/geokit/src/math/fp.rs
index 2e54cd8..34cca20 100644
--- a/geokit/src/math/fp.rs
+++ b/geokit/src/math/fp.rs
@@ -10,7 +10,17 @@ pub fn sq(x: Float) -> Float {
     x * x
 }
 pub fn remainder(val: Float, r: Float) -> Float {
-    val - (val / r).round_ties_even() * r
+    // `%` is exact, whatever the magnitude of `val`.
+    let val = val % (2. * r);
+    let rem = val - (val / r).round_ties_even() * r;
+    // `val / r` may have been rounded to a tie.
+    if rem > r / 2. {
+        rem - r
+    } else if rem < -r / 2. {
+        rem + r
+    } else {
+        rem
+    }
 }
 
 /// Compute `sum(0, N, c[k] * F[k](x))` where `F[k](x) = sin(k * x)`
-- 
2.43.0


From 2b8ff9c1ff6e690f1245bb4758c232ba7a0c9158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:02 +0000
Subject: [PATCH 04/22] fix: carry 60 minutes into the degrees in Angle::dms

An angle just below a whole degree, e.g. 10.99999999999 deg, was decomposed
as 10 deg 60 min although minutes are documented to be in [0, 59].
---
 geokit/src/quantities/angle.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geokit/src/quantities/angle.rs b/geokit/src/quantities/angle.rs
index 7873f69..b9c748d 100644
--- a/geokit/src/quantities/angle.rs
+++ b/geokit/src/quantities/angle.rs
@@ -191,13 +191,17 @@ impl Angle {
         let rad = self.0;
         let sgn = rad.signum();
         let mut deg = rad.abs().to_degrees();
-        let d = deg.floor();
+        let mut d = deg.floor();
         deg = 60. * deg.fract();
-        let m;
+        let mut m;
         let s;
         if (deg - deg.round()).abs() < 1e-8 {
             m = deg.round();
             s = 0.0;
+            if m == 60. {
+                d += 1.;
+                m = 0.;
+            }
         } else {
             m = deg.floor();
             s = 60. * deg.fract();
-- 
2.43.0


From 2ab5fda8a62232fccc416a4526a3e14740f54dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:02 +0000
Subject: [PATCH 05/22] fix: do not turn the S1 interval [-pi..-pi] into the
 empty interval

Only the lower bound was normalized to pi, so the interval holding the single
point -pi became [pi..-pi], the representation of the empty interval.
---
 geokit/src/cs/s1.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/geokit/src/cs/s1.rs b/geokit/src/cs/s1.rs
index a3d4f14..ad3e655 100644
--- a/geokit/src/cs/s1.rs
+++ b/geokit/src/cs/s1.rs
@@ -65,12 +65,20 @@ impl Interval {
     ///     - `[-pi..hi]` for lo == -pi and hi != pi,
     ///     - `[lo..hi]` otherwise
     pub fn new(lo: Angle, hi: Angle) -> Self {
-        let mut low = lo.wrapped();
+        let low = lo.wrapped();
         let hig = hi.wrapped();
-        if low == Angle::M_PI && hig != Angle::PI {
-            low = Angle::PI;
+        Self {
+            lo: if low == Angle::M_PI && hig != Angle::PI {
+                Angle::PI
+            } else {
+                low
+            },
+            hi: if hig == Angle::M_PI && low != Angle::PI {
+                Angle::PI
+            } else {
+                hig
+            },
         }
-        Self { lo: low, hi: hig }
     }
 
     pub fn is_empty(&self) -> bool {
-- 
2.43.0


From f618a5ab43242383cf138690e4822d076f07bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:31 +0000
Subject: [PATCH 06/22] fix: print the starting latitude of a geodesic

---
 geokit/src/geodesy/geodesics/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/geodesy/geodesics/mod.rs b/geokit/src/geodesy/geodesics/mod.rs
index 250433b..5986741 100644
--- a/geokit/src/geodesy/geodesics/mod.rs
+++ b/geokit/src/geodesy/geodesics/mod.rs
@@ -7,7 +7,7 @@ use derive_more::derive::Display;
 
 /// Geodesic segment data.
 #[derive(Copy, Clone, Debug, PartialEq, Display)]
-#[display("From: (lon: {}, lat: {}, az: {})\nTo:   (lon: {}, lat: {}, az: {})\nL:   {}\ns:   {}", p1.0, p1.0, alpha1, p2.0, p2.1, alpha2, p2.0 - p1.0, s)]
+#[display("From: (lon: {}, lat: {}, az: {})\nTo:   (lon: {}, lat: {}, az: {})\nL:   {}\ns:   {}", p1.0, p1.1, alpha1, p2.0, p2.1, alpha2, p2.0 - p1.0, s)]
 pub struct Geodesic {
     pub p1: (Lon, Lat),
     pub alpha1: Azimuth,
-- 
2.43.0


From 769a6b8492904e7b2792840834554a3d28b22e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:31 +0000
Subject: [PATCH 07/22] fix: allow 1e-3 m on the height in
 GeodeticTolerance::small, as documented

---
 geokit/src/cs/geodetic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/cs/geodetic.rs b/geokit/src/cs/geodetic.rs
index dd91753..e3f57f6 100644
--- a/geokit/src/cs/geodetic.rs
+++ b/geokit/src/cs/geodetic.rs
@@ -234,7 +234,7 @@ impl GeodeticTolerance {
         GeodeticTolerance {
             lon: Angle::SMALL,
             lat: Angle::SMALL,
-            height: Length::TINY,
+            height: Length::SMALL,
         }
     }
 }
-- 
2.43.0


From f53ed3512bf9e5edba589500daecf91070b07b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:44 +0000
Subject: [PATCH 08/22] fix: UTM zone 1 starts at 180W, not 177W

---
 geokit/src/projections/cyl/transverse_mercator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 1913d27..5ab1a05 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -184,7 +184,7 @@ type UTMZone = u8;
 
 const UTM_ZONE_WIDTH_DEG: Float = 6.0;
 const UTM_ZONE_COUNT: Float = 360.0 / UTM_ZONE_WIDTH_DEG;
-const UTM_ZONE_1_WEST_LIMIT_DEG: Float = -177.0;
+const UTM_ZONE_1_WEST_LIMIT_DEG: Float = -180.0;
 const UTM_LAT0: Lat = Lat::ZERO;
 const UTM_K0: Float = 0.9996;
 const UTM_FE: Length = Length::new(500_000.0, M);
-- 
2.43.0


From b888d2a833ba966bed856edebcad11f09524c1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:46 +0000
Subject: [PATCH 09/22] fix: transverse Mercator near the poles, beyond 90
 degrees and for unreachable coordinates

---
 .../projections/cyl/transverse_mercator.rs    | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 5ab1a05..ac9ff91 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -102,12 +102,11 @@ impl Projection for TransverseMercator {
     fn proj(&self, input: LLH) -> Result<ENH, ProjectionError> {
         let Q = Q(self.e, input.lat);
         let beta = beta(Q);
-        let eta_0 = {
-            let lon = input.lon;
-            let lon0 = self.lon0;
-            (beta.cos() * (lon - lon0).sin()).atanh()
-        };
-        let xi_0 = (beta.sin() * eta_0.cosh()).asin();
+        let (sin_dlon, cos_dlon) = (input.lon - self.lon0).sin_cos();
+        let eta_0 = (beta.cos() * sin_dlon).atanh();
+        // Same as `asin(sin(beta) * cosh(eta_0))`, but also correct beyond 90 degrees from
+        // the central meridian and well conditioned near the poles.
+        let xi_0 = beta.sin().atan2(beta.cos() * cos_dlon);
 
         let xis = [
             self.h[0] * (2.0 * xi_0).sin() * (2.0 * eta_0).cosh(),
@@ -125,6 +124,11 @@ impl Projection for TransverseMercator {
         ];
         let eta = eta_0 + etas.into_iter().sum::<Float>();
 
+        // The 2 points on the equator 90 degrees away from the central meridian are at infinity.
+        if !eta.is_finite() || !xi.is_finite() {
+            return Err(ProjectionError::LLHOutOfBounds);
+        }
+
         Ok(ENH {
             easting: self.false_easting + self.k0 * self.B * eta,
             northing: self.false_northing + self.k0 * (self.B * xi - self.M0),
@@ -152,8 +156,14 @@ impl Projection for TransverseMercator {
         ];
         let eta_p0 = eta_p - eta_ps.into_iter().sum::<Float>();
 
-        let beta_p = (xi_p0.sin() / eta_p0.cosh()).asin();
-        let Q_p = beta_p.tan().asinh();
+        // tan(beta_p), same as `tan(asin(sin(xi_p0) / cosh(eta_p0)))` but well conditioned near the poles
+        let (sin_xi_p0, cos_xi_p0) = xi_p0.sin_cos();
+        let sinh_eta_p0 = eta_p0.sinh();
+        let Q_p = (sin_xi_p0 / sinh_eta_p0.hypot(cos_xi_p0)).asinh();
+        // Out of reach of the projection: the series overflowed.
+        if !Q_p.is_finite() {
+            return Err(ProjectionError::ENHOutOfBounds);
+        }
 
         fn iter_fn(e: Float, Q_p: Float, Q_pp: Float) -> Float {
             Q_p + (e * (e * Q_pp.tanh()).atanh())
@@ -169,7 +179,7 @@ impl Projection for TransverseMercator {
         }
 
         Ok(LLH {
-            lon: self.lon0 + (eta_p0.tanh() / beta_p.cos()).asin() * RAD,
+            lon: self.lon0 + sinh_eta_p0.atan2(cos_xi_p0) * RAD,
             lat: Lat::new(Q_pp.sinh().atan() * RAD),
             height: input.height,
         })
-- 
2.43.0


From d9dea4d9ca20f7ce2286965baf46ffb5993b7625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:15 +0000
Subject: [PATCH 10/22] fix: report the poles as out of bounds in the Mercator
 projections

---
 geokit/src/projections/cyl/mercator.rs     | 8 +++++++-
 geokit/src/projections/cyl/web_mercator.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/geokit/src/projections/cyl/mercator.rs b/geokit/src/projections/cyl/mercator.rs
index d27ebd6..d9333c4 100644
--- a/geokit/src/projections/cyl/mercator.rs
+++ b/geokit/src/projections/cyl/mercator.rs
@@ -125,9 +125,15 @@ impl Projection for Mercator {
         let lat1 = input.lat / 2.0 + PI_4 * RAD;
         let R = ((1.0 - e_sin_lat) / (1.0 + e_sin_lat)).powf(self.e / 2.0);
 
+        // The poles are at infinity.
+        let northing = self.false_northing + self.a * self.k0 * (lat1.tan() * R).ln();
+        if !northing.m().is_finite() {
+            return Err(ProjectionError::LLHOutOfBounds);
+        }
+
         Ok(ENH {
             easting: self.false_easting + ((self.a * self.k0) * (input.lon - self.lon0)).length(),
-            northing: self.false_northing + self.a * self.k0 * (lat1.tan() * R).ln(),
+            northing,
             height: input.height,
         })
     }
diff --git a/geokit/src/projections/cyl/web_mercator.rs b/geokit/src/projections/cyl/web_mercator.rs
index 07464ad..c97e276 100644
--- a/geokit/src/projections/cyl/web_mercator.rs
+++ b/geokit/src/projections/cyl/web_mercator.rs
@@ -50,9 +50,15 @@ impl WebMercator {
 
 impl Projection for WebMercator {
     fn proj(&self, input: LLH) -> Result<ENH, ProjectionError> {
+        // The poles are at infinity.
+        let northing = self.false_northing + self.a * (input.lat / 2.0 + PI_4 * RAD).tan().ln();
+        if !northing.m().is_finite() {
+            return Err(ProjectionError::LLHOutOfBounds);
+        }
+
         Ok(ENH {
             easting: self.false_easting + (self.a * (input.lon - self.lon0)).length(),
-            northing: self.false_northing + self.a * (input.lat / 2.0 + PI_4 * RAD).tan().ln(),
+            northing,
             height: input.height,
         })
     }
-- 
2.43.0


From 11ea6a1e8ee174199f2681f5db1bb81efed29af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:36 +0000
Subject: [PATCH 11/22] fix: Karney direct geodesic starting near a pole

---
 geokit/src/geodesy/geodesics/karney.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/karney.rs b/geokit/src/geodesy/geodesics/karney.rs
index 2d67b33..045158a 100644
--- a/geokit/src/geodesy/geodesics/karney.rs
+++ b/geokit/src/geodesy/geodesics/karney.rs
@@ -229,11 +229,11 @@ fn solve_triangle_from_p(beta: Angle, alpha: Azimuth) -> Triangle {
 
     // Eq (11)
     let sigma = Complex::new(cos_alpha * cos_beta, sin_beta).arg();
-    let (sin_sigma, cos_sigma) = sigma.sin_cos();
 
     // Eq (12): omega1 is the ~longitude~ of p1 from the point of the geodesic on the equator
-    let sin_alpha0 = alpha0.sin();
-    let omega = Complex::new(cos_sigma, sin_alpha0 * sin_sigma).arg();
+    // tan(omega) = sin(alpha0) * tan(sigma) = sin(alpha) * sin(beta) / cos(alpha): unlike the
+    // former, the latter is well conditioned near the poles.
+    let omega = Complex::new(cos_alpha, sin_alpha * sin_beta).arg();
 
     Triangle {
         alpha0: Azimuth::new(alpha0),
-- 
2.43.0


From 24d691b3ed56f9176dcbe6badd37a6a5587596df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:03 +0000
Subject: [PATCH 12/22] fix: Rapp direct geodesic near the poles and for nearly
 equatorial lines

---
 geokit/src/geodesy/geodesics/rapp.rs | 30 ++++++++++------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index be1a3d2..df244e0 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -109,18 +109,17 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
             }
         }
 
-        let alpha = sin_alpha.asin();
-        // From Eq (1.22)
-        let beta2 = ((sigma_1 + sigma).sin() * alpha.cos()).asin() * RAD;
-        let (sin_beta2, cos_beta2) = beta2.sin_cos();
+        // Solve the spherical triangle with 2-argument arctangents only: inverting sines and cosines
+        // is ill conditioned near the poles and for nearly equatorial lines.
+        let x = cos_beta1 * cos_sigma * cos_alpha1 - sin_beta1 * sin_sigma;
+        let sin_beta2 = sin_beta1 * cos_sigma + cos_beta1 * sin_sigma * cos_alpha1;
+        let cos_beta2 = sin_alpha.hypot(x);
         // geodetic latitude from reduced latitude
-        let lat2 = beta2.tan().atan2(1. - self.ellipsoid.f());
+        let lat2 = sin_beta2.atan2((1. - self.ellipsoid.f()) * cos_beta2);
 
-        // Eq (1.76)
-        let sin_lambda = sin_sigma * sin_alpha1 / cos_beta2;
-        // From Eq (1.57)
-        let cos_lambda = (cos_sigma - sin_beta1 * sin_beta2) / (cos_beta1 * cos_beta2);
-        let lambda = sin_lambda.atan2(cos_lambda);
+        // Eq (1.76) and (1.57)
+        let lambda =
+            (sin_sigma * sin_alpha1).atan2(cos_beta1 * cos_sigma - sin_beta1 * sin_sigma * cos_alpha1);
 
         // Eq (1.56)
         let f = self.ellipsoid.f();
@@ -134,16 +133,7 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
 
         let L = lambda - lambda_minus_L;
 
-        let alpha21 = if s12.m() < 1000.0 {
-            let sin_lambda_2_sq = (1. - cos_lambda) / 2.;
-            // Eq (1.73)
-            (sin_lambda * cos_beta1)
-                .atan2((beta2 - beta1).sin() - 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq)
-        } else {
-            // Eq (1.71)
-            (sin_lambda * cos_beta1)
-                .atan2(sin_beta2 * cos_beta1 * cos_lambda - sin_beta1 * cos_beta2)
-        };
+        let alpha21 = sin_alpha.atan2(x);
 
         Ok(Geodesic {
             p1,
-- 
2.43.0


From c2eb2d0c7e99d7a506b2975db4271203145074f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:42 +0000
Subject: [PATCH 13/22] fix: Rapp inverse geodesic azimuths of pole crossing
 lines

---
 geokit/src/geodesy/geodesics/rapp.rs | 59 +++++++++-------------------
 1 file changed, 18 insertions(+), 41 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index df244e0..be00dd8 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -4,7 +4,6 @@ use crate::cs::azimuth::Azimuth;
 use crate::cs::geodetic::{Lat, Lon};
 use crate::geodesy::geodesics::{Geodesic, GeodesicSolver};
 use crate::geodesy::Ellipsoid;
-use crate::math::fp::PI;
 use crate::math::polynomial::Polynomial;
 use crate::quantities::length::Length;
 use crate::units::angle::RAD;
@@ -243,50 +242,28 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
                 .m();
             Length::new(s_m, M)
         };
-        let sin_alpha1 = sin_alpha / cos_beta1;
-        let sin_alpha2 = sin_alpha / cos_beta2;
         let sin_lambda_2_sq = (1. - cos_lambda) / 2.;
 
-        // If the geodesic (p1, p2) is a meridional line, 2 cases:
-        let (alpha1, alpha2) = if lambda == 0. {
-            // lambda = 0 -> no pole crossing
-            if lat1 < lat2 {
-                (0., 0.)
-            } else {
-                (PI, PI)
-            }
-        } else if lambda == PI {
-            // lambda = PI -> pole crossing
-            if lat1 >= Lat::ZERO {
-                // crossing north pole by going north then south
-                (0., PI)
-            } else {
-                // crossing south pole by going south then north
-                (PI, 0.)
-            }
+        // 2-argument arctangents so that meridional lines, crossing a pole or not, and poles need no
+        // special treatment.
+        let (alpha1, alpha2) = if s.m() < 10_000.0 {
+            let sin_delta_beta = (beta2 - beta1).sin();
+            (
+                // Eq (1.72)
+                (sin_lambda * cos_beta2)
+                    .atan2(sin_delta_beta + 2. * sin_beta1 * cos_beta2 * sin_lambda_2_sq),
+                // Eq (1.73)
+                (sin_lambda * cos_beta1)
+                    .atan2(sin_delta_beta - 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq),
+            )
         } else {
-            let (tan_alpha12, tan_alpha21) = if s.m() < 10_000.0 {
-                (
-                    // Eq (1.72)
-                    lambda.sin() * cos_beta2
-                        / ((beta2 - beta1).sin() + 2. * sin_beta1 * cos_beta2 * sin_lambda_2_sq),
-                    // Eq (1.73)
-                    lambda.sin() * cos_beta1
-                        / ((beta2 - beta1).sin() - 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq),
-                )
-            } else {
-                (
-                    // Eq (1.70)
-                    lambda.sin() * cos_beta2
-                        / (sin_beta2 * cos_beta1 - lambda.cos() * sin_beta1 * cos_beta2),
-                    // Eq (1.71)
-                    lambda.sin() * cos_beta1
-                        / (sin_beta2 * cos_beta1 * lambda.cos() - sin_beta1 * cos_beta2),
-                )
-            };
             (
-                sin_alpha1.atan2(sin_alpha1 / tan_alpha12),
-                sin_alpha2.atan2(sin_alpha2 / tan_alpha21),
+                // Eq (1.70)
+                (sin_lambda * cos_beta2)
+                    .atan2(sin_beta2 * cos_beta1 - cos_lambda * sin_beta1 * cos_beta2),
+                // Eq (1.71)
+                (sin_lambda * cos_beta1)
+                    .atan2(sin_beta2 * cos_beta1 * cos_lambda - sin_beta1 * cos_beta2),
             )
         };
 
-- 
2.43.0


From 03c43649601c335f564e7452c0eba4cd9278327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:24 +0000
Subject: [PATCH 14/22] fix: inverse geodesic between coincident points

---
 geokit/src/geodesy/geodesics/rapp.rs     | 8 ++++++++
 geokit/src/geodesy/geodesics/vincenty.rs | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index be00dd8..f09e90c 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -178,6 +178,14 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
                 + (sin_beta2 * cos_beta1 - sin_beta1 * cos_beta2 * cos_lambda).powi(2))
             .sqrt();
             sigma = sin_sigma.atan2(cos_sigma);
+            // Coincident points: Eq (1.61) is indeterminate.
+            if sigma == 0.0 {
+                return Ok(Geodesic {
+                    p1,
+                    p2,
+                    ..Geodesic::default()
+                });
+            }
             sin_2_sigma = 2. * sin_sigma * cos_sigma;
             sin_3_sigma = 3. * sin_sigma * cos_sigma.powi(2) - sin_sigma.powi(3);
             sin_4_sigma = 4. * sin_sigma * cos_sigma.powi(3) - 4. * sin_sigma.powi(3) * cos_sigma;
diff --git a/geokit/src/geodesy/geodesics/vincenty.rs b/geokit/src/geodesy/geodesics/vincenty.rs
index 06566e0..ce2c5d4 100644
--- a/geokit/src/geodesy/geodesics/vincenty.rs
+++ b/geokit/src/geodesy/geodesics/vincenty.rs
@@ -148,6 +148,15 @@ impl<'e> VincentyGeodesicSolver<'e> {
             sigma = sin_sigma_sq.sqrt().atan2(cos_sigma_i);
             (sin_sigma, cos_sigma) = sigma.sin_cos();
 
+            // Coincident points: Eq (17) is indeterminate.
+            if sigma == 0.0 {
+                return Ok(Geodesic {
+                    p1,
+                    p2,
+                    ..Geodesic::default()
+                });
+            }
+
             // Eq (17)
             let sin_alpha = cos_beta1 * cos_beta2 * sin_lambda / sin_sigma;
             cos_alpha_sq = 1. - sin_alpha.powi(2);
-- 
2.43.0


From 5722f37526ae01cab4c1007cd4c79a65425994e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:03 +0000
Subject: [PATCH 15/22] Expose the crate private XYZ transformations to runtime
 monitors under cfg(geokit_verif)

---
 geokit/src/transformations/xyz.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/geokit/src/transformations/xyz.rs b/geokit/src/transformations/xyz.rs
index 7eb4529..b4dd9c1 100644
--- a/geokit/src/transformations/xyz.rs
+++ b/geokit/src/transformations/xyz.rs
@@ -1,5 +1,6 @@
 //! This module defines types to perform coordinates transformation through normalized geocentric
 //! coordinates.
+#![allow(unexpected_cfgs)]
 
 use super::{CrsTransformation, TransformationError};
 use crate::{
@@ -290,6 +291,26 @@ impl XYZTransformation for Helmert7Params {
     }
 }
 
+/// Access to the crate private transformations for external runtime monitors.
+/// Only compiled with `--cfg geokit_verif`.
+#[cfg(geokit_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn geocentric_translation(tx: Length, ty: Length, tz: Length) -> Box<dyn XYZTransformation> {
+        Box::new(GeocentricTranslation::new(tx, ty, tz))
+    }
+
+    pub fn helmert_7_params(
+        conv: RotationConvention,
+        rotation: [Angle; 3],
+        translation: [Length; 3],
+        ppm: PPM,
+    ) -> Box<dyn XYZTransformation> {
+        Box::new(Helmert7Params::new(conv, rotation, translation, ppm))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::GeocentricTranslation;
-- 
2.43.0


From d61a817cd3196d02da24e9b7dd914a4cbde4c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:16 +0000
Subject: [PATCH 16/22] fix: LineString::param at segment ends and with zero
 length segments

The remaining length was obtained by successive subtractions while length() adds:
rounding could push the parameter beyond the last segment (out of bounds panic),
and a zero length first segment gave NaN. param(0) is the start and param(length)
is the end, as documented.
---
 .../geometry/coordinate/curve/line_string.rs  | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/geokit/src/geometry/coordinate/curve/line_string.rs b/geokit/src/geometry/coordinate/curve/line_string.rs
index dcf1517..781608f 100644
--- a/geokit/src/geometry/coordinate/curve/line_string.rs
+++ b/geokit/src/geometry/coordinate/curve/line_string.rs
@@ -78,17 +78,26 @@ impl ParameterizedCurve for LineString {
     }
 
     fn param(&self, _crs: &dyn Crs, s: Length) -> Box<Pos> {
-        assert!(s <= self.length(_crs), "Invalid curvilinear parameter `s`");
-        let mut len_iter = self.len.iter();
-        let mut res_len = s;
+        let length = self.length(_crs);
+        assert!(s <= length, "Invalid curvilinear parameter `s`");
+        if s == 0. * M {
+            return self.start().into();
+        }
+        if s == length {
+            return self.end().into();
+        }
+        // Lengths are accumulated the way `length()` does it: rounding errors cannot
+        // push `s` beyond the last segment.
+        let mut seg_start = 0. * M;
         let mut start_pos_ix = 0;
         let mut ratio = 0.;
-        while let Some(l) = len_iter.next() {
-            if l >= &res_len {
-                ratio = res_len / *l;
+        for l in self.len.iter() {
+            let seg_end = seg_start + *l;
+            if seg_end >= s {
+                ratio = ((s - seg_start) / *l).min(1.);
                 break;
             }
-            res_len -= *l;
+            seg_start = seg_end;
             start_pos_ix += 1;
         }
         let start = self.pos(start_pos_ix);
-- 
2.43.0


From 283e776309745a6d19b31ae5f68b35cd2b95d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:16 +0000
Subject: [PATCH 17/22] fix: Curve::param at segment ends

Successive subtractions could push the parameter beyond the last segment (out of
bounds panic) or beyond the end of its segment. param(length) is the end of the
curve, as documented.
---
 geokit/src/geometry/primitive/curve.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/geokit/src/geometry/primitive/curve.rs b/geokit/src/geometry/primitive/curve.rs
index f4402a0..b8803b7 100644
--- a/geokit/src/geometry/primitive/curve.rs
+++ b/geokit/src/geometry/primitive/curve.rs
@@ -98,16 +98,25 @@ impl ParameterizedCurve for Curve {
     }
 
     fn param(&self, crs: &dyn Crs, s: Length) -> Box<Pos> {
-        assert!(s <= self.length(crs), "Invalid curvilinear parameter `s`");
-        let mut seg_iter = self.seg.iter();
-        let mut res_len = s;
+        let length = self.length(crs);
+        assert!(s <= length, "Invalid curvilinear parameter `s`");
+        if s == length && s > 0. * M {
+            return self.end().into();
+        }
+        // Lengths are accumulated the way `length()` does it: rounding errors cannot
+        // push `s` beyond the last segment, nor the remainder beyond its segment.
+        let mut seg_start = 0. * M;
         let mut seg_ix = 0;
-        while let Some(s) = seg_iter.next() {
-            let seg_len = s.length(crs);
-            if seg_len >= res_len {
+        let mut res_len = s;
+        for seg in self.seg.iter() {
+            let seg_len = seg.length(crs);
+            let seg_end = seg_start + seg_len;
+            if seg_end >= s {
+                let offset = s - seg_start;
+                res_len = if offset <= seg_len { offset } else { seg_len };
                 break;
             }
-            res_len -= seg_len;
+            seg_start = seg_end;
             seg_ix += 1;
         }
         let seg = &self.seg[seg_ix];
-- 
2.43.0


From 5ce5a957174f850d32c6f3513c8f46b5d7454223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:18 +0000
Subject: [PATCH 18/22] fix: check the coordinate dimension of the first
 segment of a curve

CurveBuilder::with_seg accepted a segment of another dimension than the CRS', which
append_segment rejects: the curve then panicked when measured.
---
 geokit/src/geometry/primitive/curve.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geokit/src/geometry/primitive/curve.rs b/geokit/src/geometry/primitive/curve.rs
index b8803b7..72f5f67 100644
--- a/geokit/src/geometry/primitive/curve.rs
+++ b/geokit/src/geometry/primitive/curve.rs
@@ -153,7 +153,11 @@ impl<'a> CurveBuilder<'a> {
         crs: &'a dyn Crs,
         seg: C,
     ) -> Result<Self, &'static str> {
-        Ok(Self::new(crs, vec![clone_box(&seg)]))
+        if crs.dim() != seg.coord_dim() {
+            Err("Invalid coordinate dimension")
+        } else {
+            Ok(Self::new(crs, vec![clone_box(&seg)]))
+        }
     }
 
     pub fn append_segment<C: CurveSegment + 'static>(
-- 
2.43.0


From bd8ab550e0a4ee20f6b7f8847a5bd944292f755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:31 +0000
Subject: [PATCH 19/22] fix: longitude of the Copenhagen prime meridian

It is 12d34'40.35"E, 12.577875 degrees: it was rounded to 5 decimals, which is off by
about half a meter on the ground.
---
 geokit/src/geodesy/prime_meridian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/geodesy/prime_meridian.rs b/geokit/src/geodesy/prime_meridian.rs
index 78934fe..06fc670 100644
--- a/geokit/src/geodesy/prime_meridian.rs
+++ b/geokit/src/geodesy/prime_meridian.rs
@@ -83,7 +83,7 @@ pub mod consts {
         STOCKHOLM => ("Stockholm", lon = 18.058277777778),
         ATHENS => ("Athens", lon = 23.7163375),
         OSLO => ("Oslo", lon = 10.722916666667),
-        COPENHAGEN => ("Copenhagen", lon = 12.57788)
+        COPENHAGEN => ("Copenhagen", lon = 12.577875)
     }
 }
 
-- 
2.43.0


From b3ce9259da2339ae48c8870c7892dbe59b839a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:19 +0000
Subject: [PATCH 20/22] fix: Complex::arg is in (-pi..pi], as documented

It was -pi for a negative real number with a negative zero imaginary part.
---
 geokit/src/math/complex.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geokit/src/math/complex.rs b/geokit/src/math/complex.rs
index 39951ab..3f4b520 100644
--- a/geokit/src/math/complex.rs
+++ b/geokit/src/math/complex.rs
@@ -1,4 +1,8 @@
-use crate::{math::fp::Float, quantities::angle::Angle, units::angle::RAD};
+use crate::{
+    math::fp::{Float, PI},
+    quantities::angle::Angle,
+    units::angle::RAD,
+};
 use num::Zero;
 use std::ops::{Add, Div, Mul, Sub};
 
@@ -36,7 +40,9 @@ impl Complex {
 
     /// Return the argument **in (-pi..pi] radians** of this complex.
     pub fn arg(self) -> Angle {
-        self.im.atan2(self.re) * RAD
+        let arg = self.im.atan2(self.re);
+        // A negative real number whose imaginary part is `-0.` has the argument pi.
+        if arg == -PI { PI * RAD } else { arg * RAD }
     }
 
     /// Return the multiplicative inverse of this complex.
-- 
2.43.0


From 3e92f97bda4d1f072f55e2a252270c64cba31a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:58 +0000
Subject: [PATCH 21/22] fix: sample_s2 heights are in the requested length unit

--meter-per-unit was ignored for the height of LonLatHeight samples.
---
 geokit/src/bin/sample_s2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/bin/sample_s2.rs b/geokit/src/bin/sample_s2.rs
index 9cc0c13..87212b0 100644
--- a/geokit/src/bin/sample_s2.rs
+++ b/geokit/src/bin/sample_s2.rs
@@ -80,7 +80,7 @@ fn main() {
                 .map(move |xyz| s2_to_ll(cmd.inverse_flattening, cmd.rad_per_unit, xyz))
                 .zip(height_distr)
                 .take(cmd.count as usize)
-                .map(|(ll, h)| [ll[0], ll[1], h])
+                .map(move |(ll, h)| [ll[0], ll[1], h / cmd.meter_per_unit])
                 .for_each(|llh| {
                     let [lon, lat, h] = llh;
                     println!("{lon:17.12} {lat:16.12} {h:9.3}");
-- 
2.43.0


From 297a98d008d25d8e6891bca4eab7ad22fcc5be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:08 +0000
Subject: [PATCH 22/22] fix: longitude of points on the polar axis of a sphere
 when x is a negative zero

---
 geokit/src/geodesy/geodetic_datum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geokit/src/geodesy/geodetic_datum.rs b/geokit/src/geodesy/geodetic_datum.rs
index 1959f4c..1f1a58e 100644
--- a/geokit/src/geodesy/geodetic_datum.rs
+++ b/geokit/src/geodesy/geodetic_datum.rs
@@ -110,7 +110,8 @@ impl GeodeticDatum {
         let a = self.ellipsoid.a().m();
 
         if self.ellipsoid.is_spherical() {
-            let lon = y.atan2(x);
+            // on polar axis, we choose lon = 0., whatever the signs of the zeros.
+            let lon = if x == 0. && y == 0. { 0. } else { y.atan2(x) };
             let r = x.hypot(y);
             let lat = z.atan2(r);
             let h = r.hypot(z) - a;
-- 
2.43.0

