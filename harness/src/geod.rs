//! Independent reference for geodesics on an oblate ellipsoid: the auxiliary sphere
//! formulation with its two integrals evaluated by Gauss-Legendre quadrature (no series),
//! and a bisection for the inverse problem.
use crate::cplx::GL;
use crate::vec3::*;
use std::f64::consts::PI;

/// integral of f over [x0, x1], panels of at most ~0.8 rad
fn quad(f: &dyn Fn(f64) -> f64, x0: f64, x1: f64) -> f64 {
    let n = (((x1 - x0).abs() / 0.8).ceil() as usize).max(1);
    let h = (x1 - x0) / n as f64;
    let mut s = 0.;
    for i in 0..n {
        let m = x0 + (i as f64 + 0.5) * h;
        for (t, w) in GL {
            s += w * (f(m + 0.5 * h * t) + f(m - 0.5 * h * t));
        }
    }
    s * 0.5 * h
}

#[derive(Clone, Copy, Debug)]
pub struct El {
    pub a: f64,
    pub b: f64,
}
impl El {
    pub fn f(&self) -> f64 {
        (self.a - self.b) / self.a
    }
    fn ep2(&self) -> f64 {
        (self.a - self.b) * (self.a + self.b) / (self.b * self.b)
    }
    /// (sin, cos) of the reduced latitude
    pub fn beta(&self, lat: f64) -> (f64, f64) {
        let (s, c) = lat.sin_cos();
        let (s, c) = (self.b * s, self.a * c);
        let h = s.hypot(c);
        (s / h, c / h)
    }
}

/// A point of a geodesic: position and unit tangent (earth-centred axes), plus the angles.
#[derive(Clone, Copy, Debug)]
pub struct End {
    pub pos: V3,
    pub tan: V3,
    pub lon: f64,
    pub lat: f64,
    pub az: f64,
}

/// position and direction of travel given by (lon, lat, azimuth)
pub fn frame(el: El, lon: f64, lat: f64, az: f64) -> (V3, V3) {
    let p = llh_to_xyz(el.a, el.b, lon, lat, 0.);
    let (e, n) = east_north(lon, lat);
    let (s, c) = az.sin_cos();
    (p, [s * e[0] + c * n[0], s * e[1] + c * n[1], s * e[2] + c * n[2]])
}

fn s_int(el: El, k2: f64, s0: f64, s1: f64) -> f64 {
    el.b * quad(&|t: f64| (1. + k2 * t.sin().powi(2)).sqrt(), s0, s1)
}
fn l_int(el: El, k2: f64, s0: f64, s1: f64) -> f64 {
    let f = el.f();
    quad(&|t: f64| (2. - f) / (1. + (1. - f) * (1. + k2 * t.sin().powi(2)).sqrt()), s0, s1)
}

/// Direct problem. `s` may be any length, of any sign.
pub fn direct(el: El, lon1: f64, lat1: f64, az1: f64, s: f64) -> End {
    let (sb, cb) = el.beta(lat1);
    let (sa, ca) = az1.sin_cos();
    let sa0 = sa * cb;
    let ca0 = ca.hypot(sa * sb);
    let sig1 = sb.atan2(ca * cb);
    let om1 = (sa * sb).atan2(ca);
    let k2 = el.ep2() * ca0 * ca0;
    // Newton on the arc
    let mut d = s / el.b;
    for _ in 0..30 {
        let r = s_int(el, k2, sig1, sig1 + d) - s;
        let step = r / (el.b * (1. + k2 * (sig1 + d).sin().powi(2)).sqrt());
        d -= step;
        if step.abs() <= 2e-16 * d.abs().max(1e-9) {
            break;
        }
    }
    // the point at arc d, without cancellation near the start
    let (sd, cd) = d.sin_cos();
    let (ss1, cs1) = (sb, ca * cb); // proportional to sin, cos of sig1, factor ca0
    let h = ss1.hypot(cs1);
    let (ss1, cs1) = if h == 0. { (0., 1.) } else { (ss1 / h, cs1 / h) };
    let ss2 = ss1 * cd + cs1 * sd;
    let cs2 = cs1 * cd - ss1 * sd;
    let sb2 = ca0 * ss2;
    let cb2 = sa0.hypot(ca0 * cs2);
    // longitude difference on the sphere, from the starting point
    let om12 = (sd * sa).atan2(cb * cd - sb * sd * ca);
    let _ = om1;
    let lam = om12 - el.f() * sa0 * l_int(el, k2, sig1, sig1 + d);
    let lon2 = lon1 + lam;
    let az2 = sa0.atan2(ca0 * cs2);
    let (sl, cl) = lon2.sin_cos();
    let pos = [el.a * cb2 * cl, el.a * cb2 * sl, el.b * sb2];
    let lat2 = (el.a * sb2).atan2(el.b * cb2);
    let (e, n) = east_north(lon2, lat2);
    let (s2, c2) = az2.sin_cos();
    let tan = [s2 * e[0] + c2 * n[0], s2 * e[1] + c2 * n[1], s2 * e[2] + c2 * n[2]];
    End { pos, tan, lon: lon2, lat: lat2, az: az2 }
}

/// Length of the shortest geodesic, by bisection on the starting azimuth in the canonical
/// configuration. Returns (length, arc on the auxiliary sphere).
pub fn distance(el: El, lon1: f64, lat1: f64, lon2: f64, lat2: f64) -> (f64, f64) {
    let mut l = (lon2 - lon1) % (2. * PI);
    if l > PI {
        l -= 2. * PI
    }
    if l < -PI {
        l += 2. * PI
    }
    let l = l.abs();
    let (mut p1, mut p2) = (lat1, lat2);
    if p1.abs() < p2.abs() {
        std::mem::swap(&mut p1, &mut p2);
    }
    if p1 > 0. {
        p1 = -p1;
        p2 = -p2;
    }
    let (sb1, cb1) = el.beta(p1);
    let (sb2, cb2) = el.beta(p2);
    // difference cos^2(b2) - cos^2(b1) >= 0
    let dc = if sb1 * sb1 > 0.5 { (cb2 - cb1) * (cb2 + cb1) } else { (sb1 - sb2) * (sb1 + sb2) }.max(0.);
    let eval = |sa: f64, ca: f64, sb1: f64| -> (f64, f64, f64, f64) {
        let sa0 = sa * cb1;
        let ca0 = ca.hypot(sa * sb1);
        let ca2 = ((ca * cb1).powi(2) + dc).sqrt();
        let sig1 = sb1.atan2(ca * cb1);
        let mut sig2 = sb2.atan2(ca2);
        if sig2 < sig1 {
            sig2 = sig1
        }
        let om1 = (sa0 * sb1).atan2(ca * cb1);
        let om2 = (sa0 * sb2).atan2(ca2);
        let mut om = om2 - om1;
        if om < -1e-9 {
            om += 2. * PI;
        }
        let k2 = el.ep2() * ca0 * ca0;
        (om - el.f() * sa0 * l_int(el, k2, sig1, sig2), sig1, sig2, k2)
    };
    if cb1 < 1e-300 || cb1 == 0. {
        let e2 = el.ep2();
        let (s1, s2) = (-PI / 2., sb2.atan2(cb2));
        return (s_int(el, e2, s1, s2), s2 - s1);
    }
    let sb1 = if sb1 > -1e-25 { 0. } else { sb1 };
    if sb1 == 0. && l <= PI * (1. - el.f()) {
        // along the equator
        return (el.a * l, l / (1. - el.f()));
    }
    let sb1 = if sb1 == 0. { -1e-200 } else { sb1 };
    // bisection on gamma = alpha - pi/2, relatively accurate around 0 (nearly equatorial lines)
    let (mut lo, mut hi) = (-PI / 2., PI / 2.);
    for _ in 0..150 {
        let m = 0.5 * (lo + hi);
        let (lam, ..) = eval(m.cos(), -m.sin(), sb1);
        if lam < l {
            lo = m
        } else {
            hi = m
        }
        if hi - lo <= 1e-16 * lo.abs().max(hi.abs()) {
            break;
        }
    }
    let m = 0.5 * (lo + hi);
    let (_, s1, s2, k2) = eval(m.cos(), -m.sin(), sb1);
    (s_int(el, k2, s1, s2), s2 - s1)
}

/// Reads lines of GeodTest.dat (WGS84) and prints the largest disagreements.
pub fn selftest() -> i32 {
    let el = El { a: 6378137., b: 6378137. * (1. - 1. / 298.257223563) };
    let d2r = PI / 180.;
    let (mut n, mut dp, mut dt, mut ds, mut dsn) = (0, 0f64, 0f64, 0f64, 0f64);
    for l in std::io::stdin().lines() {
        let v: Vec<f64> = l.unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
        let e = direct(el, v[1] * d2r, v[0] * d2r, v[2] * d2r, v[6]);
        let (p, t) = frame(el, v[4] * d2r, v[3] * d2r, v[5] * d2r);
        dp = dp.max(dist(p, e.pos));
        dt = dt.max(dist(t, e.tan));
        let (s, _) = distance(el, v[1] * d2r, v[0] * d2r, v[4] * d2r, v[3] * d2r);
        if v[7] < 178. {
            ds = ds.max((s - v[6]).abs());
        } else {
            dsn = dsn.max((s - v[6]).abs());
        }
        n += 1;
    }
    println!("{n} lines: position {dp:e} m, direction {dt:e} rad, length {ds:e} m (arc > 178 deg: {dsn:e} m)");
    0
}
