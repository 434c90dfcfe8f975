//! C15 direct geodesics, C16 inverse geodesics, C17 consistency.
use crate::gen::*;
use crate::geod::{self, El};
use crate::mon::*;
use crate::p_angle::circ;
use crate::vec3::*;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::geodesy::geodesics::karney::KarneyGeodesicSolver;
use geokit::geodesy::geodesics::rapp::RappIterativeGeodisicSolver;
use geokit::geodesy::geodesics::vincenty::VincentyGeodesicSolver;
use geokit::geodesy::geodesics::{Geodesic, GeodesicSolver};
use geokit::geodesy::Ellipsoid;
use geokit::quantities::angle::Angle;
use geokit::units::angle::RAD;
use std::f64::consts::{FRAC_PI_2, PI};

pub const SOLVERS: [&str; 3] = ["vincenty", "rapp", "karney"];
pub fn solver<'e>(k: usize, e: &'e Ellipsoid) -> Box<dyn GeodesicSolver + 'e> {
    match k {
        0 => Box::new(VincentyGeodesicSolver::new(e)),
        1 => Box::new(RappIterativeGeodisicSolver::new(e)),
        _ => Box::new(KarneyGeodesicSolver::new(e)),
    }
}
/// metres of error allowed on lines of up to half a turn: the order of the truncated series
/// (f^4 for Vincenty, f^5 for Rapp, f^7 for Karney) and rounding
pub fn tol(k: usize, a: f64, f: f64) -> f64 {
    match k {
        0 => 1e-5 + 0.25 * a * f.powi(4),
        1 => 2e-6 + 2. * a * f.powi(5),
        _ => 1e-7 + 0.05 * a * f.powi(7),
    }
}
pub fn az(rad: f64) -> Azimuth {
    Azimuth::new(Angle::new(rad, RAD))
}
fn lo(l: Lon) -> f64 {
    l.angle().rad()
}
fn la(l: Lat) -> f64 {
    l.angle().rad()
}
fn azr(a: Azimuth) -> f64 {
    (a - Azimuth::NORTH).rad()
}

fn azimuth(c: &mut Case) -> f64 {
    let r = &mut c.rng;
    match r.below(8) {
        0 => *r.pick(&[0., FRAC_PI_2, PI, -FRAC_PI_2, -0.0, PI / 4., -PI / 4.]),
        1 => {
            let k = *r.pick(&[0., FRAC_PI_2, PI, -FRAC_PI_2]);
            let t = r.log(1e-15, 1e-1) * r.sign();
            // stay in (-pi, pi]
            let v = k + t;
            if v > PI {
                v - 2. * PI
            } else {
                v
            }
        }
        2 => {
            let k = *r.pick(&[0., FRAC_PI_2, -FRAC_PI_2]);
            nudge(r, k)
        }
        _ => r.range(-PI, PI),
    }
}
fn line_len(c: &mut Case) -> f64 {
    let r = &mut c.rng;
    match r.below(8) {
        0 => r.log(1e-4, 1e3),
        1 => *r.pick(&[0., 1., 999.999, 1000., 1000.001, 9999.9, 10000., 10000.1, 10001965.729, 20003931.458, 20037508.342]),
        2 => r.log(1e3, 1e6),
        3 => r.range(1.95e7, 2.01e7),
        _ => r.range(0., 2.0e7),
    }
}
/// distance between the end of a solved line and the reference end, and between their directions
/// of travel
fn judge(c: &mut Case, key: [&'static str; 3], el: El, g: &Geodesic, r: &geod::End, ptol: f64, atol: f64, msg: &dyn Fn() -> String) {
    let (p, t) = geod::frame(el, lo(g.p2.0), la(g.p2.1), azr(g.alpha2));
    let d = dist(p, r.pos);
    c.within(d, ptol, key[0], || format!("{} ends {d:e} m away from the geodesic's end", msg()));
    let d = dist(t, r.tan);
    c.within(d, atol, key[1], || format!("{} final azimuth off by {d:e} rad", msg()));
}

fn direct_case(c: &mut Case, multi: bool, e: Ell) {
    let el = El { a: e.a, b: e.b };
    let (mut l1, mut p1, mut a1) = (lon(&mut c.rng), lat(&mut c.rng), azimuth(c));
    if a1 <= -PI {
        a1 = PI
    }
    let mut s = line_len(c);
    if multi {
        s = c.rng.log(2e7, 2e8);
        c.cell("more than half way around");
    } else if c.rng.chance(1, 6) {
        // aim at (nearly) a pole or the equator: start from the far end of a line leaving it
        let lat0 = match c.rng.below(3) {
            0 => c.rng.sign() * FRAC_PI_2,
            1 => c.rng.sign() * (FRAC_PI_2 - c.rng.log(1e-12, 1e-2)),
            _ => 0.,
        };
        let r = geod::direct(el, l1, lat0, a1, s);
        l1 = mk_lon(r.lon).angle().rad();
        p1 = r.lat.clamp(-FRAC_PI_2, FRAC_PI_2);
        a1 = azr(az(r.az + PI));
        c.cell("aimed at a pole or the equator");
    }
    c.hs(&[e.a, e.b, l1, p1, a1, s]);
    c.nontrivial();
    let r = geod::direct(el, l1, p1, a1, s);
    let (sb1, cb1) = el.beta(p1);
    let (_, cb2) = el.beta(r.lat);
    let _ = sb1;
    if cb1 < 1e-10 {
        c.cell("starts at a pole")
    }
    if cb2 < 1e-6 {
        c.cell("ends near a pole")
    }
    if e.sphere() {
        c.cell("sphere")
    }
    if p1 == 0. && a1.cos().abs() < 1e-15 {
        c.cell("equatorial")
    }
    if a1 == 0. || a1 == PI {
        c.cell("meridian")
    }
    c.sample(|| format!("direct a={:?} b={:?} p1=({l1:?},{p1:?}) az={a1:?} s={s:?} -> {:?}", e.a, e.b, r));
    for k in 0..3 {
        let sv = solver(k, &e.e);
        let name = SOLVERS[k];
        let what = || format!("{name} direct on a={:?} b={:?} from lon={l1:?} lat={p1:?} az={a1:?} s={s:?}", e.a, e.b);
        let Some(g) = c.call("direct-panics", what, || sv.solve_direct((mk_lon(l1), mk_lat(p1)), az(a1), mk_len(s))) else {
            continue;
        };
        let g = match g {
            Err(m) => {
                c.violate("direct-err", format!("{}: Err({m})", what()));
                continue;
            }
            Ok(g) => g,
        };
        c.check(
            g.p1 == (mk_lon(l1), mk_lat(p1)) && g.alpha1 == az(a1) && g.s == mk_len(s),
            "direct-echo",
            || format!("{}: the returned line does not start at the given point with the given azimuth and length", what()),
        );
        let turns = 1. + (s / 2e7).floor();
        let ptol = tol(k, e.a, e.f()) * turns;
        let atol = ptol / 2e6 + 2e-14 + 3e-15 * (1. / cb2.max(1e-17) + 1. / cb1.max(1e-17));
        let keys = [
            ["position-vincenty", "azimuth-vincenty", ""],
            ["position-rapp", "azimuth-rapp", ""],
            ["position-karney", "azimuth-karney", ""],
        ][k];
        judge(c, keys, el, &g, &r, ptol, atol, &what);
    }
}

fn c15_direct(c: &mut Case) {
    let e = ell_earth(&mut c.rng);
    direct_case(c, false, e)
}
fn c15_flat(c: &mut Case) {
    let e = ell_flat(&mut c.rng);
    direct_case(c, false, e)
}
fn c15_multi(c: &mut Case) {
    let e = ell_earth(&mut c.rng);
    direct_case(c, true, e)
}

fn pair(c: &mut Case) -> (f64, f64, f64, f64, &'static str) {
    let r = &mut c.rng;
    let (l1, p1) = (lon(r), lat(r));
    match r.below(14) {
        0 => (l1, p1, l1, p1, "coincident"),
        1 => (l1, p1, l1, lat(r), "same meridian"),
        2 => {
            let l2 = if l1 > 0. { l1 - PI } else { l1 + PI };
            (l1, p1, l2, lat(r), "opposite meridian")
        }
        3 => (l1, p1, lon(r), p1, "same parallel"),
        4 => (l1, 0., lon(r), 0., "equator"),
        5 => {
            let t = r.log(1e-15, 1e-3);
            let u = r.log(1e-15, 1e-3);
            (l1, t * r.sign(), lon(r), u * r.sign(), "near the equator")
        }
        6 => (l1, r.sign() * FRAC_PI_2, lon(r), lat(r), "from a pole"),
        7 => (l1, p1, lon(r), r.sign() * FRAC_PI_2, "to a pole"),
        8 => (l1, r.sign() * FRAC_PI_2, lon(r), r.sign() * FRAC_PI_2, "two poles"),
        9 => {
            let d = r.log(1e-15, 1e-2);
            let t = r.range(-PI, PI);
            let p2 = (p1 + d * t.cos()).clamp(-FRAC_PI_2, FRAC_PI_2);
            let l2 = l1 + d * t.sin() / p1.cos().max(1e-3);
            (l1, p1, mk_lon(l2).angle().rad(), p2, "short")
        }
        10 => {
            let d = r.log(1e-9, 3e-1);
            let t = r.range(-PI, PI);
            let p2 = (-p1 + d * t.cos()).clamp(-FRAC_PI_2, FRAC_PI_2);
            let l2 = l1 + PI + d * t.sin() / p1.cos().max(1e-2);
            (l1, p1, mk_lon(l2).angle().rad(), p2, "nearly antipodal")
        }
        _ => (l1, p1, lon(r), lat(r), "general"),
    }
}

/// angle, seen from the centre of the auxiliary sphere, between a point and the antipode of another
fn to_antipode(el: El, l1: f64, p1: f64, l2: f64, p2: f64) -> f64 {
    let (sb1, cb1) = el.beta(p1);
    let (sb2, cb2) = el.beta(p2);
    let u = [cb1 * l1.cos(), cb1 * l1.sin(), sb1];
    let v = [-cb2 * l2.cos(), -cb2 * l2.sin(), -sb2];
    2. * (dist(u, v) / 2.).min(1.).asin()
}
/// An inverse solution must exist this far from the antipode: 4 degrees, more on flatter ellipsoids
fn must_solve(el: El) -> f64 {
    (4. * D2R).max(4. * PI * el.f())
}

fn judge_inverse(c: &mut Case, k: usize, e: &Ell, l1: f64, p1: f64, l2: f64, p2: f64, kind: &'static str) {
    let el = El { a: e.a, b: e.b };
    let (sref, _) = geod::distance(el, l1, p1, l2, p2);
    let anti = to_antipode(el, l1, p1, l2, p2);
    let start = geod::frame(el, l1, p1, 0.).0;
    let end = geod::frame(el, l2, p2, 0.).0;
    let sv = solver(k, &e.e);
    let name = SOLVERS[k];
    let what = || format!("{name} inverse on a={:?} b={:?} from lon={l1:?} lat={p1:?} to lon={l2:?} lat={p2:?} ({kind})", e.a, e.b);
    let g = match guard(|| sv.solve_inverse((mk_lon(l1), mk_lat(p1)), (mk_lon(l2), mk_lat(p2)))) {
        Err(m) => {
            let key = if k == 2 && m.contains("not implemented") { "karney-inverse-unimplemented" } else { "inverse-panics" };
            c.check(false, key, || format!("{}: panicked: {m}", what()));
            return;
        }
        Ok(Err(m)) => {
            c.cell("not converging");
            c.metric("farthest failure from the antipode / (pi f)", anti / (PI * el.f()));
            c.check(anti < must_solve(el), "inverse-err", || format!("{}: Err({m}) {anti} rad away from the antipode; the length is {sref}", what()));
            return;
        }
        Ok(Ok(g)) => g,
    };
    if anti < must_solve(el) {
        c.cell("solved near the antipode");
    }
    c.check(g.p1 == (mk_lon(l1), mk_lat(p1)) && g.p2 == (mk_lon(l2), mk_lat(p2)), "inverse-echo", || {
        format!("{}: the returned line does not join the two given points", what())
    });
    let s = g.s.m();
    let tol = tol(k, e.a, e.f());
    let keys = [
        ["length-vincenty", "azimuth1-vincenty", "azimuth2-vincenty"],
        ["length-rapp", "azimuth1-rapp", "azimuth2-rapp"],
        ["length-karney", "azimuth1-karney", "azimuth2-karney"],
    ][k];
    c.within((s - sref).abs(), tol, keys[0], || format!("{}: s={s:?}, the shortest geodesic measures {sref:?}", what()));
    // near the antipode the azimuths are ill conditioned
    let atol = tol + 3e-6 / anti.max(1e-9);
    let a1 = azr(g.alpha1);
    let a2 = azr(g.alpha2);
    let d1 = dist(geod::direct(el, l1, p1, a1, sref).pos, end);
    c.within(d1, atol, keys[1], || format!("{}: s={s:?} azimuth={a1:?} misses p2 by {d1:e} m", what()));
    let d2 = dist(geod::direct(el, l2, p2, a2, -sref).pos, start);
    c.within(d2, atol, keys[2], || format!("{}: s={s:?} final azimuth={a2:?} followed backwards misses p1 by {d2:e} m", what()));
}

fn c16_inverse(c: &mut Case) {
    let e = ell_earth(&mut c.rng);
    let (l1, p1, l2, p2, kind) = pair(c);
    c.cell(kind);
    c.hs(&[e.a, e.b, l1, p1, l2, p2]);
    c.nontrivial();
    c.sample(|| format!("inverse a={:?} b={:?} p1=({l1:?},{p1:?}) p2=({l2:?},{p2:?}) {kind}", e.a, e.b));
    for k in 0..2 {
        judge_inverse(c, k, &e, l1, p1, l2, p2, kind);
    }
}
fn c16_flat(c: &mut Case) {
    let e = ell_flat(&mut c.rng);
    let (l1, p1, l2, p2, kind) = pair(c);
    c.hs(&[e.a, e.b, l1, p1, l2, p2]);
    c.nontrivial();
    for k in 0..2 {
        judge_inverse(c, k, &e, l1, p1, l2, p2, kind);
    }
}
fn c16_karney(c: &mut Case) {
    let e = ell_earth(&mut c.rng);
    let (l1, p1, l2, p2, kind) = pair(c);
    judge_inverse(c, 2, &e, l1, p1, l2, p2, kind);
}

// ------------------------------------------------------------ consistency

fn inv(k: usize, e: &Ellipsoid, l1: f64, p1: f64, l2: f64, p2: f64) -> Option<Geodesic> {
    guard(|| solver(k, e).solve_inverse((mk_lon(l1), mk_lat(p1)), (mk_lon(l2), mk_lat(p2)))).ok()?.ok()
}

/// solving back a line found by the direct problem, with every pair of solvers
fn c17_roundtrip(c: &mut Case) {
    let e = ell_earth(&mut c.rng);
    let el = El { a: e.a, b: e.b };
    let (l1, p1, mut a1) = (lon(&mut c.rng), lat(&mut c.rng), azimuth(c));
    if a1 <= -PI {
        a1 = PI
    }
    let s = match c.rng.below(4) {
        0 => c.rng.log(1e-3, 1e4),
        1 => c.rng.log(1e2, 1e6),
        _ => c.rng.range(0., 1.94e7),
    };
    let k = c.rng.usize(3);
    let j = c.rng.usize(2);
    c.hs(&[e.a, e.b, l1, p1, a1, s, k as f64, j as f64]);
    c.cell(["direct by vincenty", "direct by rapp", "direct by karney"][k]);
    c.cell(["inverse by vincenty", "inverse by rapp"][j]);
    let what = || format!("{} direct then {} inverse on a={:?} b={:?} lon={l1:?} lat={p1:?} az={a1:?} s={s:?}", SOLVERS[k], SOLVERS[j], e.a, e.b);
    let Some(g) = c.call("direct-panics", what, || solver(k, &e.e).solve_direct((mk_lon(l1), mk_lat(p1)), az(a1), mk_len(s))) else { return };
    let Ok(g) = g else {
        c.violate("direct-err", what());
        return;
    };
    let (l2, p2) = (lo(g.p2.0), la(g.p2.1));
    if to_antipode(el, l1, p1, l2, p2) < must_solve(el) {
        return;
    }
    c.nontrivial();
    let Some(h) = c.call("inverse-panics", what, || solver(j, &e.e).solve_inverse(g.p1, g.p2)) else { return };
    let Ok(h) = h else {
        c.violate("inverse-err", what());
        return;
    };
    let of = |k| tol(k, e.a, e.f());
    let tol = of(k) + of(j);
    let d = (h.s.m() - s).abs();
    c.within(d, tol, "roundtrip-length", || format!("{}: length {:?}", what(), h.s.m()));
    // sideways displacement at the other end caused by the difference of azimuths
    let d = dist(geod::direct(el, l1, p1, azr(h.alpha1), s).pos, geod::direct(el, l1, p1, a1, s).pos);
    c.within(d, tol, "roundtrip-azimuth1", || format!("{}: starting azimuth {:?}", what(), azr(h.alpha1)));
    let d = dist(geod::direct(el, l2, p2, azr(h.alpha2), -s).pos, geod::direct(el, l2, p2, azr(g.alpha2), -s).pos);
    c.within(d, tol, "roundtrip-azimuth2", || format!("{}: final azimuth {:?} then {:?}", what(), azr(g.alpha2), azr(h.alpha2)));
    // going back along the line returns to the start, looking backwards
    let i = c.rng.usize(3);
    let back = az(azr(g.alpha2) + PI);
    let what = || format!("{} back from the end of {}", SOLVERS[i], what());
    if let Some(Ok(r)) = c.call("direct-panics", what, || solver(i, &e.e).solve_direct(g.p2, back, mk_len(s))) {
        let d = dist(geod::frame(el, lo(r.p2.0), la(r.p2.1), 0.).0, geod::frame(el, l1, p1, 0.).0);
        let tol = of(k) + of(i) + 1e-6;
        c.within(d, tol, "return", || format!("{}: misses the start by {d:e} m", what()));
    }
}

/// symmetries of the inverse problem
fn c17_symmetry(c: &mut Case) {
    let e = ell_earth(&mut c.rng);
    let el = El { a: e.a, b: e.b };
    let (l1, p1, l2, p2, kind) = pair(c);
    let anti = to_antipode(el, l1, p1, l2, p2);
    let k = c.rng.usize(2);
    c.hs(&[e.a, e.b, l1, p1, l2, p2, k as f64]);
    let what = || format!("{} inverse on a={:?} b={:?} from lon={l1:?} lat={p1:?} to lon={l2:?} lat={p2:?} ({kind})", SOLVERS[k], e.a, e.b);
    if anti < must_solve(el) {
        c.cell("skipped: near the antipode");
        return;
    }
    c.nontrivial();
    c.cell(kind);
    let Some(g) = inv(k, &e.e, l1, p1, l2, p2) else {
        c.violate("inverse-err", what());
        return;
    };
    let s = g.s.m();
    let tol = 2e-5;
    // reversed
    let q = inv(k, &e.e, l2, p2, l1, p1);
    c.check(q.is_some(), "reverse-err", || format!("{} solved, but not its reverse", what()));
    if let Some(q) = q {
        c.within((q.s.m() - s).abs(), tol, "reverse-length", || format!("{}: {s:?} one way, {:?} the other way", what(), q.s.m()));
        let m12 = s.min(e.b * anti.sin().abs().max(anti.min(0.1)));
        let da = circ(azr(q.alpha1), azr(g.alpha2) + PI) * m12;
        let db = circ(azr(q.alpha2), azr(g.alpha1) + PI) * m12;
        if s > 0. && p1.cos() > 1e-12 && p2.cos() > 1e-12 {
            c.within(da.max(db), 10. * tol, "reverse-azimuths", || {
                format!("{}: azimuths {:?} {:?} one way, {:?} {:?} the other way", what(), azr(g.alpha1), azr(g.alpha2), azr(q.alpha1), azr(q.alpha2))
            });
        }
    }
    // mirrored through the equator
    if let Some(q) = inv(k, &e.e, l1, -p1, l2, -p2) {
        c.within((q.s.m() - s).abs(), tol, "mirror-equator", || format!("{}: length {s:?}, mirrored through the equator {:?}", what(), q.s.m()));
    } else {
        c.violate("mirror-err", what());
    }
    // mirrored east-west
    if let Some(q) = inv(k, &e.e, -l1, p1, -l2, p2) {
        c.within((q.s.m() - s).abs(), tol, "mirror-meridian", || format!("{}: length {s:?}, mirrored through the meridian {:?}", what(), q.s.m()));
        // azimuths change sign
        if s > 0. && p1.cos() > 1e-12 && p2.cos() > 1e-12 {
            let m12 = s.min(e.b * anti.sin().abs().max(anti.min(0.1)));
            let d = circ(azr(q.alpha1), -azr(g.alpha1)).max(circ(azr(q.alpha2), -azr(g.alpha2))) * m12;
            // exactly opposite meridians: both ways around are as short only between antipodes
            c.within(d, 10. * tol, "mirror-azimuths", || {
                format!("{}: azimuths {:?} {:?}, mirrored {:?} {:?}", what(), azr(g.alpha1), azr(g.alpha2), azr(q.alpha1), azr(q.alpha2))
            });
        }
    } else {
        c.violate("mirror-err", what());
    }
    // turned around the axis
    let t = c.rng.range(-PI, PI);
    if let Some(q) = inv(k, &e.e, lo(mk_lon(l1 + t)), p1, lo(mk_lon(l2 + t)), p2) {
        c.within((q.s.m() - s).abs(), tol, "rotation", || format!("{}: length {s:?}, both longitudes turned by {t:?}: {:?}", what(), q.s.m()));
    } else {
        c.violate("rotation-err", what());
    }
    // ellipsoid twice as big
    let m = c.rng.range(0.5, 2.);
    let e2 = from_ab(e.a * m, e.b * m);
    if let Some(q) = inv(k, &e2.e, l1, p1, l2, p2) {
        c.within((q.s.m() - s * m).abs(), tol * m + 1e-5, "similarity", || format!("{}: length {s:?}, on an ellipsoid {m:?} times as big: {:?}", what(), q.s.m()));
    } else {
        c.violate("similarity-err", what());
    }
    // bounds: not shorter than the chord, not longer than half the equator
    let ch = dist(geod::frame(el, l1, p1, 0.).0, geod::frame(el, l2, p2, 0.).0);
    c.check(s >= ch - 1e-3 && s <= PI * e.a + 1e-3, "bounds", || format!("{}: length {s:?}, chord {ch:?}", what()));
    // triangle inequality
    let (l3, p3) = (lon(&mut c.rng), lat(&mut c.rng));
    if to_antipode(el, l1, p1, l3, p3) > must_solve(el) && to_antipode(el, l3, p3, l2, p2) > must_solve(el) {
        if let (Some(x), Some(y)) = (inv(k, &e.e, l1, p1, l3, p3), inv(k, &e.e, l3, p3, l2, p2)) {
            let d = s - (x.s.m() + y.s.m());
            c.check(d <= 5e-3, "triangle", || format!("{}: length {s:?} but {:?} + {:?} through lon={l3:?} lat={p3:?}", what(), x.s.m(), y.s.m()));
        }
    }
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C15",
            rule: "end point, final azimuth and echoed start of solve_direct (Vincenty, Rapp, Karney) against quadrature of the geodesic integrals on the auxiliary sphere, compared as position (m) and direction of travel in space",
            assumptions: &["oblate ellipsoids of terrestrial size with a flattening of at most 1/190", "0 <= s <= 200000 km"],
            must_see: &["starts at a pole", "ends near a pole", "sphere", "equatorial", "meridian", "more than half way around", "aimed at a pole or the equator"],
            streams: vec![
                Stream { name: "direct", quick: 300000, thorough: 10000000, f: c15_direct },
                Stream { name: "flattened", quick: 60000, thorough: 2000000, f: c15_flat },
                Stream { name: "multi", quick: 60000, thorough: 2000000, f: c15_multi },
            ],
        },
        Property {
            id: "C16",
            rule: "length of solve_inverse against the shortest geodesic found by bisection with quadrature; azimuths certified by shooting the reference geodesic from both ends and measuring the miss distance; Err allowed only within 4 degrees of the antipode",
            assumptions: &["oblate ellipsoids of terrestrial size with a flattening of at most 1/190", "points exactly on normalized longitudes/latitudes"],
            must_see: &["coincident", "same meridian", "opposite meridian", "same parallel", "equator", "near the equator", "from a pole", "to a pole", "two poles", "short", "nearly antipodal", "general", "not converging", "solved near the antipode"],
            streams: vec![
                Stream { name: "inverse", quick: 60000, thorough: 6000000, f: c16_inverse },
                Stream { name: "flattened", quick: 20000, thorough: 2000000, f: c16_flat },
                Stream { name: "karney-inverse", quick: 200, thorough: 20000, f: c16_karney },
            ],
        },
        Property {
            id: "C17",
            rule: "metamorphic relations between solver runs: inverse of a direct line (every solver pair), reversal, mirrors, rotation about the axis, similarity, chord/equator bounds, triangle inequality",
            assumptions: &["oblate ellipsoids of terrestrial size with a flattening of at most 1/190", "pairs more than 4 degrees away from antipodal"],
            must_see: &["direct by vincenty", "direct by rapp", "direct by karney", "inverse by vincenty", "inverse by rapp", "general", "short", "opposite meridian"],
            streams: vec![
                Stream { name: "roundtrip", quick: 150000, thorough: 5000000, f: c17_roundtrip },
                Stream { name: "symmetry", quick: 150000, thorough: 5000000, f: c17_symmetry },
                Stream { name: "reference", quick: 5000, thorough: 300000, f: refcheck },
            ],
        },
    ]
}

/// self check of the reference: the length of a line of the reference direct problem is recovered
fn refcheck(c: &mut Case) {
    let e = ell_earth(&mut c.rng);
    let el = El { a: e.a, b: e.b };
    let (l1, p1, a1) = (lon(&mut c.rng), lat(&mut c.rng), azimuth(c));
    let s = c.rng.range(0., 1.9e7);
    let r = geod::direct(el, l1, p1, a1, s);
    let (d, _) = geod::distance(el, l1, p1, r.lon, r.lat);
    if (d - s).abs() > 1e-7 {
        panic!("reference geodesics disagree: {l1:?} {p1:?} {a1:?} {s:?} {d:?} {el:?}");
    }
}
