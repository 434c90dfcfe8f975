//! C05 geodetic axes, C06 geocentric and projected axes, C19 approximate equality.
use crate::gen::*;
use crate::mon::*;
use crate::p_angle::circ;
use approx::AbsDiffEq;
use geokit::crs::geocentric::GeocentricCrs;
use geokit::crs::geographic::GeographicCrs;
use geokit::crs::projected::ProjectedCrs;
use geokit::crs::Crs;
use geokit::cs::cartesian::geocentric::{approx_eq_xyz, GeocentricAxes, XYZ};
use geokit::cs::cartesian::projected::{ProjectedAxes, ProjectedTolerance, ENH};
use geokit::cs::cartesian::CartesianTolerance;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{approx_eq_llh, GeodeticAxes, GeodeticTolerance, Lat, Lon, LLH};
use geokit::geodesy::geodesics::{check_direct, check_inverse, DirectErrors, Geodesic, InverseErrors};
use geokit::quantities::length::Length;
use geokit::quantities::angle::Angle;
use geokit::units::angle::{AngleUnit, DEG, RAD};
use geokit::units::length::{LengthUnit, M};
use std::f64::consts::{FRAC_PI_2, PI};

/// Independent description of a geodetic system of axes.
#[derive(Clone, Copy, Debug)]
pub struct GeoSpec {
    pub axes: GeodeticAxes,
    pub name: &'static str,
    pub dim: usize,
    /// index of longitude, latitude; sign of the longitude
    pub ilon: usize,
    pub ilat: usize,
    pub slon: f64,
    pub au: f64,
    pub hu: f64,
}

pub fn geo_spec(kind: u64, au: AngleUnit, af: f64, hu: LengthUnit, hf: f64) -> GeoSpec {
    let g = |axes, name, dim, ilon, ilat, slon| GeoSpec { axes, name, dim, ilon, ilat, slon, au: af, hu: hf };
    match kind {
        0 => g(GeodeticAxes::EastNorthUp { angle_unit: au, height_unit: hu }, "EastNorthUp", 3, 0, 1, 1.),
        1 => g(GeodeticAxes::NorthEastUp { angle_unit: au, height_unit: hu }, "NorthEastUp", 3, 1, 0, 1.),
        2 => g(GeodeticAxes::EastNorth { angle_unit: au }, "EastNorth", 2, 0, 1, 1.),
        3 => g(GeodeticAxes::NorthEast { angle_unit: au }, "NorthEast", 2, 1, 0, 1.),
        _ => g(GeodeticAxes::NorthWest { angle_unit: au }, "NorthWest", 2, 1, 0, -1.),
    }
}

pub fn any_geo_spec(c: &mut Case) -> GeoSpec {
    let (au, af, _) = angle_unit(&mut c.rng);
    let (hu, hf, _) = length_unit(&mut c.rng);
    let k = c.rng.below(5);
    geo_spec(k, au, af, hu, hf)
}

#[derive(Clone, Copy, Debug)]
pub struct ProjSpec {
    pub axes: ProjectedAxes,
    pub name: &'static str,
    pub dim: usize,
    pub hz: f64,
    pub hu: f64,
}

pub fn any_proj_spec(c: &mut Case) -> ProjSpec {
    let (a, af, _) = length_unit(&mut c.rng);
    let (b, bf, _) = length_unit(&mut c.rng);
    if c.rng.chance(1, 2) {
        ProjSpec { axes: ProjectedAxes::EastNorthUp { horiz_unit: a, height_unit: b }, name: "projected EastNorthUp", dim: 3, hz: af, hu: bf }
    } else {
        ProjSpec { axes: ProjectedAxes::EastNorth { horiz_unit: a }, name: "projected EastNorth", dim: 2, hz: af, hu: 1. }
    }
}

const SENTINEL: f64 = 1.234567890123e77;

fn relabs(a: f64, b: f64) -> f64 {
    if a == b {
        0.
    } else {
        (a - b).abs() / a.abs().max(b.abs()).max(1e-280)
    }
}
const E: f64 = f64::EPSILON;

fn geo_case(c: &mut Case) {
    let s = any_geo_spec(c);
    c.cell(s.name);
    // coordinates in the axes' units, longitudes possibly several turns away
    let lo = if c.rng.chance(1, 4) { angle_any(&mut c.rng) % 1e4 } else { lon(&mut c.rng) };
    let la = if c.rng.chance(1, 6) { c.rng.range(-4., 4.) } else { lat(&mut c.rng) };
    let h = height(&mut c.rng);
    let mut buf = [SENTINEL; 5];
    buf[s.ilon] = s.slon * lo / s.au;
    buf[s.ilat] = la / s.au;
    if s.dim == 3 {
        buf[2] = h / s.hu;
    }
    c.hs(&buf);
    c.hu(s.name.len() as u64);
    c.hs(&[s.au, s.hu]);
    let ctx = format!("{} (1 unit = {:?} rad, {:?} m), coordinates {:?}", s.name, s.au, s.hu, &buf[..s.dim]);
    c.check(s.axes.dim() == s.dim, "dim", || format!("{ctx}: dim() = {}", s.axes.dim()));
    let Some(p) = c.call("panic", || ctx.clone(), || s.axes.normalize(&buf[..s.dim])) else { return };
    let (rlo, rla, rh) = (p.lon.angle().rad(), p.lat.angle().rad(), p.height.m());
    let elo = buf[s.ilon] * s.slon * s.au;
    let ela = buf[s.ilat] * s.au;
    c.check(rlo.abs() <= PI, "normalize-lon", || format!("{ctx}: longitude {rlo:?} out of [-pi, pi]"));
    c.within(circ(rlo, elo), 2e-15 + 8. * E * elo.abs(), "normalize-lon", || format!("{ctx}: longitude {rlo:?}, expected {elo:?} rad"));
    if elo.abs() < PI - 1e-9 {
        c.within((rlo - elo).abs(), 8. * E * elo.abs() + 2e-15, "normalize-lon", || format!("{ctx}: longitude {rlo:?}, expected {elo:?} rad"));
        c.cell("longitude in range");
    } else if elo.abs() > PI + 1e-9 {
        c.cell("longitude out of range");
    }
    let cla = ela.clamp(-FRAC_PI_2, FRAC_PI_2);
    c.within((rla - cla).abs(), 4. * E * cla.abs() + 1e-300, "normalize-lat", || format!("{ctx}: latitude {rla:?}, expected {cla:?} rad"));
    let eh = if s.dim == 3 { buf[2] * s.hu } else { 0. };
    c.within(relabs(rh, eh), 4. * E, "normalize-height", || format!("{ctx}: height {rh:?}, expected {eh:?} m"));
    // and back: same coordinates, when they were in range
    let mut out = [SENTINEL; 5];
    if c.call("panic", || ctx.clone(), || s.axes.denormalize(p, &mut out[..])).is_none() {
        return;
    }
    c.check(out[s.dim..].iter().all(|v| *v == SENTINEL), "extra-slots", || format!("{ctx}: denormalize wrote beyond its {} coordinates: {out:?}", s.dim));
    let tol = |v: f64| 8. * E * v.abs() + 1e-290;
    c.within((out[s.ilon] - s.slon * rlo / s.au).abs(), tol(rlo / s.au), "denormalize", || format!("{ctx}: {p} written as {out:?}"));
    c.within((out[s.ilat] - rla / s.au).abs(), tol(rla / s.au), "denormalize", || format!("{ctx}: {p} written as {out:?}"));
    if s.dim == 3 {
        c.within((out[2] - rh / s.hu).abs(), tol(rh / s.hu), "denormalize", || format!("{ctx}: {p} written as {out:?}"));
    }
    if elo.abs() < PI - 1e-9 && ela.abs() <= FRAC_PI_2 - 1e-15 {
        for i in 0..s.dim {
            // relative to the largest angle value, since pi - tiny loses its tail
            let m = if i == s.ilon { 4e-15 / s.au } else { 0. };
            c.within((out[i] - buf[i]).abs(), 16. * E * buf[i].abs() + m + 1e-290, "roundtrip", || {
                format!("{ctx}: normalized and denormalized to {:?}", &out[..s.dim])
            });
        }
        c.cell("round trip");
    }
    // denormalized tolerance: same order, positive, same units
    let (tlo, tla, th) = (c.rng.log(1e-12, 1.), c.rng.log(1e-12, 1.), c.rng.log(1e-6, 10.));
    let t = GeodeticTolerance { lon: Angle::new(tlo, RAD), lat: Angle::new(tla, RAD), height: th * M };
    if let Some(v) = c.call("panic", || ctx.clone(), || s.axes.denormalize_tol(t)) {
        let mut e = [0.; 3];
        e[s.ilon] = tlo / s.au;
        e[s.ilat] = tla / s.au;
        e[2] = th / s.hu;
        let ok = v.len() == s.dim && (0..s.dim).all(|i| relabs(v[i], e[i]) < 8. * E);
        c.check(ok, "denormalize_tol", || format!("{ctx}: tolerance lon {tlo:?} lat {tla:?} h {th:?} -> {v:?}, expected {:?}", &e[..s.dim]));
    }
    c.nontrivial();
    c.sample(|| format!("{ctx} -> {p}"));
}

/// every kind of axes x every unit pair, at fixed positions
fn geo_grid(c: &mut Case) {
    let units = [(DEG, PI / 180.), (RAD, 1.), (geokit::units::angle::GRAD, PI / 200.), (geokit::units::angle::SEC, PI / 648000.)];
    let lens = [(M, 1.), (geokit::units::length::FT, 0.3048), (geokit::units::length::US_FT, 1200. / 3937.)];
    let i = c.idx as usize;
    let (u, l, k) = (units[i % 4], lens[(i / 4) % 3], (i / 12) % 5);
    let s = geo_spec(k as u64, u.0, u.1, l.0, l.1);
    c.hu(c.idx);
    let d = GeodeticAxes::default();
    c.check(d == GeodeticAxes::EastNorthUp { angle_unit: RAD, height_unit: M }, "default", || format!("default axes {d:?}"));
    for (lo, la, h) in [(2.337229, 48.836, 67.), (-110., 10., 0.), (179.5, -89., -5.), (-0.25, 0.5, 1e4)] {
        let mut b = [0.; 3];
        b[s.ilon] = s.slon * lo * D2R / s.au;
        b[s.ilat] = la * D2R / s.au;
        b[2] = h / s.hu;
        let Some(p) = c.call("panic", || format!("{s:?} {b:?}"), || s.axes.normalize(&b[..s.dim])) else { continue };
        let e = (p.lon.angle().rad() - lo * D2R).abs().max((p.lat.angle().rad() - la * D2R).abs());
        c.within(e, 3e-15, "grid", || format!("{s:?} {b:?} -> {p}"));
        let eh = if s.dim == 3 { h } else { 0. };
        c.within((p.height.m() - eh).abs(), 1e-11, "grid", || format!("{s:?} {b:?} -> {p}"));
    }
    c.nontrivial();
}

// ------------------------------------------------------------ C06

fn coord_val(c: &mut Case) -> f64 {
    match c.rng.below(8) {
        0 => *c.rng.pick(&[0., -0., 1., -1., 500000., 1e7, 6378137.]),
        1 => c.rng.log(1e-12, 1e12) * c.rng.sign(),
        _ => c.rng.range(-2e7, 2e7),
    }
}

fn cart_case(c: &mut Case) {
    let s = any_proj_spec(c);
    c.cell(s.name);
    let v = [coord_val(c), coord_val(c), coord_val(c)];
    let w = [coord_val(c), coord_val(c), coord_val(c)];
    c.hs(&v);
    c.hs(&[s.hz, s.hu, s.dim as f64]);
    let ctx = format!("{s:?} {v:?}");
    c.check(s.axes.dim() == s.dim, "dim", || format!("{ctx}: dim() = {}", s.axes.dim()));
    let Some(p) = c.call("panic", || ctx.clone(), || s.axes.normalize(&v[..s.dim])) else { return };
    let e = [v[0] * s.hz, v[1] * s.hz, if s.dim == 3 { v[2] * s.hu } else { 0. }];
    let g = [p.easting.m(), p.northing.m(), p.height.m()];
    for i in 0..3 {
        c.within(relabs(g[i], e[i]), 4. * E, "projected-normalize", || format!("{ctx} -> {p}, expected {e:?} m"));
    }
    let mut out = [SENTINEL; 5];
    if c.call("panic", || ctx.clone(), || s.axes.denormalize(p, &mut out[..])).is_none() {
        return;
    }
    c.check(out[s.dim..].iter().all(|v| *v == SENTINEL), "extra-slots", || format!("{ctx}: denormalize wrote beyond its {} coordinates: {out:?}", s.dim));
    for i in 0..s.dim {
        c.within(relabs(out[i], v[i]), 8. * E, "projected-roundtrip", || format!("{ctx} normalized and denormalized to {out:?}"));
    }
    let (tz, th) = (c.rng.log(1e-6, 10.), c.rng.log(1e-6, 10.));
    let t = ProjectedTolerance { horiz: tz * M, height: th * M };
    if let Some(t) = c.call("panic", || ctx.clone(), || s.axes.denormalize_tol(t)) {
        let e = [tz / s.hz, tz / s.hz, th / s.hu];
        c.check(t.len() == s.dim && (0..s.dim).all(|i| relabs(t[i], e[i]) < 8. * E), "projected-tol", || format!("{ctx}: tolerance {t:?}, expected {e:?}"));
    }
    // geocentric
    let ax = GeocentricAxes::XYZ;
    c.check(ax.dim() == 3, "dim", || "geocentric dim".into());
    let q = ax.normalize(&v);
    let g = [q.x.m(), q.y.m(), q.z.m()];
    c.check(g == v, "geocentric-normalize", || format!("{v:?} -> {q}"));
    let mut out = [SENTINEL; 4];
    ax.denormalize(q, &mut out);
    c.check(out[..3] == v && out[3] == SENTINEL, "geocentric-denormalize", || format!("{v:?} -> {out:?}"));
    let tt = ax.denormalize_tol(CartesianTolerance { all: tz * M });
    c.check(tt.len() == 3 && tt.iter().all(|x| *x == tz), "geocentric-tol", || format!("{tz:?} -> {tt:?}"));
    c.cell("geocentric");
    // distances: Euclidean, symmetric, zero on itself
    let q2 = ax.normalize(&w);
    let d = q.dist_to(q2).m();
    // scaled to avoid overflow in the reference
    let df = [v[0] - w[0], v[1] - w[1], v[2] - w[2]];
    let m = df.iter().fold(0f64, |a, b| a.max(b.abs()));
    let e = if m == 0. { 0. } else { m * ((df[0] / m).powi(2) + (df[1] / m).powi(2) + (df[2] / m).powi(2)).sqrt() };
    c.within(relabs(d, e), 8. * E, "geocentric-distance", || format!("distance of {q} and {q2} = {d:?}, expected {e:?}"));
    c.within(relabs(q2.dist_to(q).m(), d), 4. * E, "geocentric-distance", || format!("distance of {q} and {q2} is not symmetric"));
    c.check(q.dist_to(q).m() == 0., "geocentric-distance", || format!("distance of {q} to itself"));
    let n = |v: [f64; 3]| ENH { easting: v[0] * M, northing: v[1] * M, height: v[2] * M };
    let d = n(v).dist_to(n(w)).m();
    c.within(relabs(d, e), 8. * E, "projected-distance", || format!("distance of {} and {} = {d:?}, expected {e:?}", n(v), n(w)));
    c.within(relabs(n(w).dist_to(n(v)).m(), d), 4. * E, "projected-distance", || "not symmetric".into());
    c.check(n(v).dist_to(n(v)).m() == 0., "projected-distance", || "not zero on itself".into());
    c.nontrivial();
    c.sample(|| format!("{ctx} -> {p}"));
}

// ------------------------------------------------------------ C19

/// an offset clearly below (true) or above (false) a tolerance
fn off(c: &mut Case, tol: f64) -> (f64, bool) {
    match c.rng.below(5) {
        0 => (0., true),
        1 => (tol * c.rng.range(0., 0.999) * c.rng.sign(), true),
        2 => (tol * (1. - c.rng.log(1e-3, 1.)) * c.rng.sign(), true),
        3 => (tol * (1. + c.rng.log(1e-3, 10.)) * c.rng.sign(), false),
        _ => (tol * c.rng.log(1.001, 1e3) * c.rng.sign(), false),
    }
}

fn approx_case(c: &mut Case) {
    // at most one axis out of tolerance most of the time, so that each axis decides
    let tlo = c.rng.log(1e-10, 1e-3);
    let tla = c.rng.log(1e-10, 1e-3);
    let th = c.rng.log(1e-4, 10.);
    let mut o = [(0., true); 3];
    for (i, t) in [tlo, tla, th].into_iter().enumerate() {
        o[i] = off(c, t);
    }
    if c.rng.chance(2, 3) {
        let keep = c.rng.usize(3);
        for (i, t) in [tlo, tla, th].into_iter().enumerate() {
            if i != keep {
                o[i] = (t * c.rng.range(-0.99, 0.99), true);
            }
        }
        c.cell(["decided by first axis", "decided by second axis", "decided by third axis"][keep]);
    }
    let lo = if c.rng.chance(1, 3) { PI * c.rng.sign() } else { lon(&mut c.rng) };
    let mut la = c.rng.range(-1.5, 1.5);
    if c.rng.chance(1, 5) {
        // both at a pole exactly: the longitudes still count
        la = FRAC_PI_2 * c.rng.sign();
        o[1] = (0., true);
        c.cell("both at a pole");
    }
    let h = c.rng.range(-1e4, 1e4);
    let tol = GeodeticTolerance { lon: Angle::new(tlo, RAD), lat: Angle::new(tla, RAD), height: th * M };
    let p = LLH { lon: mk_lon(lo), lat: mk_lat(la), height: h * M };
    let q = LLH { lon: mk_lon(lo + o[0].0), lat: mk_lat(la + o[1].0), height: (h + o[2].0) * M };
    c.hs(&[lo, la, h, o[0].0, o[1].0, o[2].0, tlo, tla, th]);
    let e = o.iter().all(|x| x.1);
    c.cell(if e { "equal" } else { "different" });
    if circ(lo, lo + o[0].0) < 1e-2 && (p.lon.angle() - q.lon.angle()).rad().abs() > 3. {
        c.cell("across the antimeridian");
    }
    let msg = || format!("{p:?} ~ {q:?} within {tol:?} (offsets {o:?})");
    if let Some((r, r2)) = c.call("panic", msg, || (p.approx_eq(&q, tol), q.approx_eq(&p, tol))) {
        c.check(r == e && r2 == e, "llh-approx_eq", || format!("{} gave {r} / {r2} instead of {e}", msg()));
    }
    if e {
        // the printing variant has the same verdict (only the quiet case is driven here)
        c.check(approx_eq_llh(p, q, tol), "llh-approx_eq", || msg());
    }
    // cartesian
    let v = [c.rng.range(-7e6, 7e6), c.rng.range(-7e6, 7e6), c.rng.range(-7e6, 7e6)];
    let t = c.rng.log(1e-4, 10.);
    let keep = c.rng.usize(3);
    let mut o = [0.; 3];
    let mut e = true;
    for (i, x) in o.iter_mut().enumerate() {
        if i == keep {
            let (d, ok) = off(c, t);
            *x = d;
            e &= ok;
        } else {
            *x = t * c.rng.range(-0.99, 0.99);
        }
    }
    let mk = |v: [f64; 3]| XYZ { x: v[0] * M, y: v[1] * M, z: v[2] * M };
    let w = [v[0] + o[0], v[1] + o[1], v[2] + o[2]];
    let ct = CartesianTolerance { all: t * M };
    c.hs(&w);
    if let Some((r, r2)) = c.call("panic", || format!("{v:?} {w:?}"), || (mk(v).approx_eq(mk(w), ct), mk(w).approx_eq(mk(v), ct))) {
        c.check(r == e && r2 == e, "xyz-approx_eq", || format!("{v:?} ~ {w:?} within {t:?} gave {r} / {r2}, expected {e} (axis {keep})"));
        if e {
            c.check(approx_eq_xyz(mk(v), mk(w), ct), "xyz-approx_eq", || format!("{v:?} ~ {w:?} within {t:?}"));
        }
    }
    // projected: two tolerances
    let (tz, th) = (c.rng.log(1e-4, 10.), c.rng.log(1e-4, 10.));
    let keep = c.rng.usize(3);
    let mut o = [0.; 3];
    let mut e = true;
    for (i, x) in o.iter_mut().enumerate() {
        let t = if i == 2 { th } else { tz };
        if i == keep {
            let (d, ok) = off(c, t);
            *x = d;
            e &= ok;
        } else {
            *x = t * c.rng.range(-0.99, 0.99);
        }
    }
    let mk = |v: [f64; 3]| ENH { easting: v[0] * M, northing: v[1] * M, height: v[2] * M };
    let w = [v[0] + o[0], v[1] + o[1], v[2] + o[2]];
    let pt = ProjectedTolerance { horiz: tz * M, height: th * M };
    if let Some((r, r2)) = c.call("panic", || format!("{v:?} {w:?}"), || (mk(v).approx_eq(mk(w), pt), mk(w).approx_eq(mk(v), pt))) {
        c.check(r == e && r2 == e, "enh-approx_eq", || format!("{v:?} ~ {w:?} within {tz:?}/{th:?} gave {r} / {r2}, expected {e} (axis {keep})"));
    }
    c.nontrivial();
}

/// tolerances of every size, nil and huge included: the verdict follows from the stored values,
/// and is left open only within rounding of the tolerance
fn scales_case(c: &mut Case) {
    let size = |c: &mut Case, lo: f64, hi: f64| if c.rng.chance(1, 8) { 0. } else { c.rng.log(lo, hi) };
    let t = [size(c, 1e-15, 7.), size(c, 1e-15, 4.), size(c, 1e-10, 1e9)];
    let (lo, la) = (lon(&mut c.rng), lat(&mut c.rng));
    let h = c.rng.log(1e-3, 1e9) * c.rng.sign();
    let keep = c.rng.usize(3);
    let mut o = [0.; 3];
    for i in 0..3 {
        let k = if i == keep { c.rng.log(0.3, 30.) } else { c.rng.range(0., 0.9) };
        o[i] = t[i] * k * c.rng.sign();
        if i == keep && t[i] == 0. && c.rng.chance(1, 2) {
            o[i] = [1e-14, 1e-14, 1e-3][i];
        }
    }
    let p = LLH { lon: mk_lon(lo), lat: mk_lat(la), height: h * M };
    let q = LLH { lon: mk_lon(lo + o[0]), lat: mk_lat(la + o[1]), height: (h + o[2]) * M };
    let tol = GeodeticTolerance { lon: Angle::new(t[0], RAD), lat: Angle::new(t[1], RAD), height: t[2] * M };
    c.hs(&[lo, la, h, o[0], o[1], o[2], t[0], t[1], t[2]]);
    let d = [
        circ(p.lon.angle().rad(), q.lon.angle().rad()),
        (p.lat.angle().rad() - q.lat.angle().rad()).abs(),
        (p.height.m() - q.height.m()).abs(),
    ];
    let same = [p.lon == q.lon, p.lat == q.lat, p.height == q.height];
    let eps = [4e-15, 1e-15, 1e-15 * (h.abs() + o[2].abs())];
    let mut e = Some(true);
    for i in 0..3 {
        if same[i] || d[i] < t[i] - eps[i] {
            continue;
        }
        if d[i] > t[i] + eps[i] {
            e = Some(false);
            break;
        }
        e = None;
    }
    let Some(e) = e else { return };
    c.nontrivial();
    c.cell(if t[keep] == 0. { "nil tolerance" } else if t[keep] < [1e-12, 1e-12, 1e-6][keep] { "tiny tolerance" } else if t[keep] > [0.1, 0.1, 1e4][keep] { "huge tolerance" } else { "middling tolerance" });
    let msg = || format!("{p:?} ~ {q:?} within {tol:?} (offsets {o:?})");
    if let Some((r, r2)) = c.call("panic", msg, || (p.approx_eq(&q, tol), q.approx_eq(&p, tol))) {
        c.check(r == e && r2 == e, "llh-approx_eq", || format!("{} gave {r} / {r2} instead of {e}", msg()));
    }
    if e {
        c.check(approx_eq_llh(p, q, tol), "llh-approx_eq", || msg());
    }
    // cartesian and projected
    let (th, tv) = (size(c, 1e-9, 1e9), size(c, 1e-9, 1e9));
    let mut v = [0.; 3];
    let mut w = [0.; 3];
    for proj in [false, true] {
        let (mut sure, mut e) = (true, true);
        for i in 0..3 {
            let t = if proj && i == 2 { tv } else { th };
            v[i] = c.rng.log(1e-3, 1e9) * c.rng.sign();
            w[i] = v[i] + t * if i == keep { c.rng.log(0.3, 30.) } else { c.rng.range(0., 0.9) } * c.rng.sign();
            let d = (v[i] - w[i]).abs();
            e &= d <= t;
            sure &= v[i] == w[i] || (d - t).abs() > 1e-15 * (v[i].abs() + w[i].abs());
        }
        c.hs(&v);
        c.hs(&w);
        if !sure {
            continue;
        }
        let got = if proj {
            let mk = |v: [f64; 3]| ENH { easting: v[0] * M, northing: v[1] * M, height: v[2] * M };
            let t = ProjectedTolerance { horiz: th * M, height: tv * M };
            c.call("panic", || format!("{v:?} {w:?}"), || (mk(v).approx_eq(mk(w), t), mk(w).approx_eq(mk(v), t)))
        } else {
            let mk = |v: [f64; 3]| XYZ { x: v[0] * M, y: v[1] * M, z: v[2] * M };
            let t = CartesianTolerance { all: th * M };
            c.call("panic", || format!("{v:?} {w:?}"), || (mk(v).approx_eq(mk(w), t), mk(w).approx_eq(mk(v), t)))
        };
        if let Some((r, r2)) = got {
            c.check(r == e && r2 == e, if proj { "enh-approx_eq" } else { "xyz-approx_eq" }, || format!("{v:?} ~ {w:?} within {th:?}/{tv:?} gave {r} / {r2}, expected {e}"));
        }
    }
}

/// the helpers that report their finding on the standard output or by a panic
fn report_case(c: &mut Case) {
    let (ta, tl) = (1e-12, 1e-4);
    // at most one component out of tolerance
    let mut o = [0.; 3];
    let mut e = true;
    let keep = c.rng.usize(4);
    let t = [c.rng.log(1e-10, 1e-3), c.rng.log(1e-10, 1e-3), c.rng.log(1e-4, 10.)];
    for i in 0..3 {
        if i == keep {
            (o[i], e) = off(c, t[i]);
        } else {
            o[i] = t[i] * c.rng.range(-0.99, 0.99);
        }
    }
    let (lo, mut la, h) = (lon(&mut c.rng), c.rng.range(-1.5, 1.5), c.rng.range(-1e4, 1e4));
    if keep != 1 && c.rng.chance(1, 5) {
        la = FRAC_PI_2 * c.rng.sign();
        o[1] = 0.;
    }
    let p = LLH { lon: mk_lon(lo), lat: mk_lat(la), height: h * M };
    let q = LLH { lon: mk_lon(lo + o[0]), lat: mk_lat(la + o[1]), height: (h + o[2]) * M };
    let tol = GeodeticTolerance { lon: Angle::new(t[0], RAD), lat: Angle::new(t[1], RAD), height: t[2] * M };
    c.hs(&[lo, la, h, o[0], o[1], o[2], t[0], t[1], t[2]]);
    let msg = || format!("{p:?} ~ {q:?} within {tol:?} (offsets {o:?})");
    if let Some(r) = c.call("panic", msg, || quiet(|| guard(|| approx_eq_llh(p, q, tol)))) {
        c.check(r == Ok(e), "approx_eq_llh", || format!("approx_eq_llh: {} gave {r:?} instead of {e}", msg()));
    }
    // cartesian: one tolerance
    let v = [c.rng.range(-7e6, 7e6), c.rng.range(-7e6, 7e6), c.rng.range(-7e6, 7e6)];
    let mut w = v;
    let mut e = true;
    for i in 0..3 {
        if i == keep {
            let (d, ok) = off(c, t[2]);
            e = ok;
            w[i] += d;
        } else {
            w[i] += t[2] * c.rng.range(-0.99, 0.99);
        }
    }
    let mk = |v: [f64; 3]| XYZ { x: v[0] * M, y: v[1] * M, z: v[2] * M };
    if let Some(r) = c.call("panic", || format!("{v:?} {w:?}"), || quiet(|| guard(|| approx_eq_xyz(mk(v), mk(w), CartesianTolerance { all: t[2] * M })))) {
        c.check(r == Ok(e), "approx_eq_xyz", || format!("approx_eq_xyz: {v:?} ~ {w:?} within {:?} gave {r:?} instead of {e}", t[2]));
    }
    // geodesics: fixed tolerances, the verdict is a panic. Each check looks at the computed part only.
    let (a1, a2, s) = (c.rng.range(-3., 3.), c.rng.range(-3., 3.), c.rng.range(0., 2e4));
    let (l1, p1) = (lon(&mut c.rng), c.rng.range(-1.5, 1.5));
    let g = Geodesic { p1: (mk_lon(l1), mk_lat(p1)), alpha1: Azimuth::new(Angle::new(a1, RAD)), p2: (p.lon, p.lat), alpha2: Azimuth::new(Angle::new(a2, RAD)), s: s * M };
    let mut d = [0.; 5];
    let which = c.rng.usize(6);
    let far = c.rng.chance(1, 2);
    for (i, x) in d.iter_mut().enumerate() {
        let t = if i == 4 { tl } else { ta };
        *x = t * if i == which && far { c.rng.log(1.1, 1e6) } else { c.rng.range(0., 0.9) } * c.rng.sign();
    }
    if la.abs() == FRAC_PI_2 {
        d[2] = -la.signum() * d[2].abs();
    }
    let k = Geodesic {
        p1: g.p1,
        alpha1: Azimuth::new(Angle::new(a1 + d[0], RAD)),
        p2: (mk_lon(lo + d[1]), mk_lat(la + d[2])),
        alpha2: Azimuth::new(Angle::new(a2 + d[3], RAD)),
        s: (s + d[4]) * M,
    };
    let ok = |is: &[usize]| is.iter().all(|&i| !(far && i == which));
    let fell = |f: &dyn Fn()| quiet(|| guard(f)).is_err();
    let (direct, inverse) = (fell(&|| check_direct(&k, &g, &DirectErrors::default())), fell(&|| check_inverse(&k, &g, &InverseErrors::default())));
    let names = ["initial azimuth", "longitude", "latitude", "final azimuth", "length", "nothing"];
    c.check(direct != ok(&[1, 2, 3]), "check_direct", || format!("check_direct {} with the {} {} (differences {d:?})", if direct { "fails" } else { "passes" }, names[which], if far { "beyond the tolerance" } else { "within the tolerance" }));
    c.check(inverse != ok(&[0, 3, 4]), "check_inverse", || format!("check_inverse {} with the {} {} (differences {d:?})", if inverse { "fails" } else { "passes" }, names[which], if far { "beyond the tolerance" } else { "within the tolerance" }));
    c.cell("reporting helpers");
    c.nontrivial();
}

/// "<= tolerance" at equality: dyadic values, so that the differences are exact
fn boundary_case(c: &mut Case) {
    let dy = |c: &mut Case, range: f64, step: f64| ((c.rng.range(-range, range) / step).round()) * step;
    let mut ok = true;
    let mut o = [0.; 3];
    let ta = if c.rng.chance(1, 6) { 0. } else { 2f64.powi(-(4 + c.rng.below(24) as i32)) };
    let tl = if c.rng.chance(1, 6) { 0. } else { 2f64.powi(3 - c.rng.below(16) as i32) };
    for (i, v) in o.iter_mut().enumerate() {
        let t = if i == 2 { tl } else { ta };
        let m = match c.rng.below(8) {
            0 | 1 => 0.,
            2 => 2.,
            _ => 1.,
        };
        *v = t * m * c.rng.sign();
        ok &= m * t <= t;
    }
    let (lo, la, h) = (dy(c, 3., 2f64.powi(-28)), dy(c, 1.4, 2f64.powi(-28)), dy(c, 1e4, 2f64.powi(-14)));
    if la.abs() + 0.07 > 1.57 || lo.abs() + 0.14 > 3.14 {
        return;
    }
    c.hs(&[lo, la, h, ta, tl]);
    c.hs(&o);
    let p = LLH { lon: mk_lon(lo), lat: mk_lat(la), height: h * M };
    let q = LLH { lon: mk_lon(lo + o[0]), lat: mk_lat(la + o[1]), height: (h + o[2]) * M };
    let tol = GeodeticTolerance { lon: Angle::new(ta, RAD), lat: Angle::new(ta, RAD), height: tl * M };
    let msg = || format!("{p:?} ~ {q:?} within {tol:?}, offsets {o:?} exactly");
    if let Some(r) = c.call("panic", msg, || p.approx_eq(&q, tol) && q.approx_eq(&p, tol)) {
        c.check(r == ok, "llh-at-tolerance", || format!("{} gave {r}", msg()));
    }
    let big = if c.rng.chance(1, 3) { 2f64.powi(38) } else { 6e6 };
    let v = [dy(c, big, 2f64.powi(-14)), dy(c, big, 2f64.powi(-14)), dy(c, big, 2f64.powi(-14))];
    let mut f = [o[0], o[1], o[2]].map(|x| if x == 0. { 0. } else { x.signum() * tl * if x.abs() == 2. * ta || x.abs() == 2. * tl && ta != 2. * tl { 2. } else { 1. } });
    if tl == 0. && c.rng.chance(1, 2) {
        f[c.rng.usize(3)] = 2f64.powi(-14) * c.rng.sign();
        c.cell("tolerance 0");
    }
    let w = [v[0] + f[0], v[1] + f[1], v[2] + f[2]];
    let e = f.iter().all(|x| x.abs() <= tl);
    let mk = |v: [f64; 3]| XYZ { x: v[0] * M, y: v[1] * M, z: v[2] * M };
    if let Some(r) = c.call("panic", || format!("{v:?} {w:?}"), || mk(v).approx_eq(mk(w), CartesianTolerance { all: tl * M })) {
        c.check(r == e, "xyz-at-tolerance", || format!("{v:?} ~ {w:?} within {tl:?} gave {r}"));
    }
    let mk = |v: [f64; 3]| ENH { easting: v[0] * M, northing: v[1] * M, height: v[2] * M };
    if let Some(r) = c.call("panic", || format!("{v:?} {w:?}"), || mk(v).approx_eq(mk(w), ProjectedTolerance { horiz: tl * M, height: tl * M })) {
        c.check(r == e, "enh-at-tolerance", || format!("{v:?} ~ {w:?} within {tl:?} gave {r}"));
    }
    let gs = any_geo_spec(c);
    let crs = GeographicCrs { id: "g".into(), datum: datum(&wgs84(), &pm_of(0.)), axes: gs.axes };
    let d = gs.dim;
    let e = f[..d].iter().all(|x| x.abs() <= tl);
    if let Some(r) = c.call("panic", || format!("{v:?} {w:?}"), || crs.approx_eq(&v[..d], &w[..d], &[tl; 3][..d])) {
        c.check(r == e, "crs-at-tolerance", || format!("{crs:?}: {:?} ~ {:?} within {tl:?} gave {r}", &v[..d], &w[..d]));
    }
    c.cell(if ok { "at the tolerance" } else { "at twice the tolerance" });
    c.nontrivial();
}

/// Crs::approx_eq on raw coordinates of every kind of CRS
fn crs_approx(c: &mut Case) {
    let kind = c.rng.below(3);
    let gs = any_geo_spec(c);
    let ps = any_proj_spec(c);
    let dat = datum(&wgs84(), &pm_of(0.));
    let (dim, crs): (usize, Box<dyn Crs>) = match kind {
        0 => (3, Box::new(GeocentricCrs { id: "g".into(), datum: dat, axes: GeocentricAxes::XYZ })),
        1 => (gs.dim, Box::new(GeographicCrs { id: "g".into(), datum: dat, axes: gs.axes })),
        _ => (
            ps.dim,
            Box::new(ProjectedCrs {
                id: "g".into(),
                datum: dat,
                axes: ps.axes,
                projection: geokit::projections::ProjectionSpec::UTMNorth { zone: 31 },
            }),
        ),
    };
    c.cell(["geocentric CRS", "geographic CRS", "projected CRS"][kind as usize]);
    c.check(crs.dim() == dim, "crs-dim", || format!("{crs:?}: dim {}", crs.dim()));
    let mut v = [0.; 3];
    let mut w = [0.; 3];
    let mut t = [0.; 3];
    let mut e = true;
    let keep = c.rng.usize(dim);
    for i in 0..dim {
        v[i] = c.rng.range(-100., 100.);
        t[i] = c.rng.log(1e-6, 10.);
        let (d, ok) = if i == keep { off(c, t[i]) } else { (t[i] * c.rng.range(-0.99, 0.99), true) };
        w[i] = v[i] + d;
        e &= ok;
    }
    c.hs(&v);
    c.hs(&w);
    let (a, b, tt) = (&v[..dim], &w[..dim], &t[..dim]);
    if let Some((r, r2)) = c.call("panic", || format!("{crs:?} {a:?} {b:?} {tt:?}"), || (crs.approx_eq(a, b, tt), crs.approx_eq(b, a, tt))) {
        c.check(r == e && r2 == e, "crs-approx_eq", || format!("{crs:?}: {a:?} ~ {b:?} within {tt:?} gave {r} / {r2}, expected {e}"));
    }
    // predefined tolerances written in the axes of the CRS accept and reject what they say
    let small = c.rng.chance(1, 2);
    let (ta, tl) = if small { (1e-9, 1e-3) } else { (1e-12, 1e-4) };
    let (tolv, unit): (Vec<f64>, Vec<f64>) = match kind {
        0 => (GeocentricAxes::XYZ.denormalize_tol(if small { CartesianTolerance::small() } else { CartesianTolerance::tiny() }).to_vec(), vec![tl; 3]),
        1 => {
            let mut u = vec![ta / gs.au; 2];
            if dim == 3 {
                u.push(tl / gs.hu)
            }
            (gs.axes.denormalize_tol(if small { GeodeticTolerance::small() } else { GeodeticTolerance::tiny() }).to_vec(), u)
        }
        _ => {
            let mut u = vec![tl / ps.hz; 2];
            if dim == 3 {
                u.push(tl / ps.hu)
            }
            (ps.axes.denormalize_tol(if small { ProjectedTolerance::small() } else { ProjectedTolerance::tiny() }).to_vec(), u)
        }
    };
    let z = [0.; 3];
    let i = c.rng.usize(dim);
    let f = if c.rng.chance(1, 2) { 0.99 } else { 1.01 };
    let mut w = [0.; 3];
    w[i] = unit[i] * f;
    if tolv.len() == dim {
        if let Some(r) = c.call("panic", || format!("{crs:?} {w:?}"), || crs.approx_eq(&z[..dim], &w[..dim], &tolv)) {
            c.check(r == (f < 1.), "crs-predefined-tolerance", || {
                format!("{crs:?}: predefined {} tolerance on axis {i} ({tolv:?}): offset {:?} gave {r}", if small { "small" } else { "tiny" }, w[i])
            });
        }
    } else {
        c.violate("crs-predefined-tolerance", format!("{crs:?}: tolerance {tolv:?} of the wrong length"));
    }
    c.nontrivial();
    c.sample(|| format!("{crs:?} {a:?} {b:?} {tt:?} -> {e}"));
}

fn consts(c: &mut Case) {
    let g = [
        ("GeodeticTolerance::tiny", GeodeticTolerance::tiny(), 1e-12, 1e-4),
        ("GeodeticTolerance::small", GeodeticTolerance::small(), 1e-9, 1e-3),
        ("GeodeticTolerance default", GeodeticTolerance::default(), 1e-12, 1e-4),
    ];
    for (n, t, ea, el) in g {
        let ok = relabs(t.lon.rad(), ea) < 4. * E && relabs(t.lat.rad(), ea) < 4. * E && relabs(t.height.m(), el) < 4. * E;
        c.check(ok, "geodetic-tolerance", || format!("{n} = {t:?}, documented as {ea:e} rad, {el:e} m"));
    }
    for (n, t, e) in [("tiny", CartesianTolerance::tiny(), 1e-4), ("small", CartesianTolerance::small(), 1e-3), ("default", CartesianTolerance::default(), 1e-4)] {
        c.check(relabs(t.all.m(), e) < 4. * E, "cartesian-tolerance", || format!("CartesianTolerance {n} = {t:?}"));
    }
    for (n, t, e) in [("tiny", ProjectedTolerance::tiny(), 1e-4), ("small", ProjectedTolerance::small(), 1e-3)] {
        c.check(relabs(t.horiz.m(), e) < 4. * E && relabs(t.height.m(), e) < 4. * E, "projected-tolerance", || format!("ProjectedTolerance {n} = {t:?}"));
    }
    for (n, t) in [
        ("Angle", <Angle as AbsDiffEq>::default_epsilon()),
        ("Lon", <Lon as AbsDiffEq>::default_epsilon()),
        ("Lat", <Lat as AbsDiffEq>::default_epsilon()),
        ("Azimuth", <Azimuth as AbsDiffEq>::default_epsilon()),
    ] {
        c.check(relabs(t.rad(), 1e-12) < 4. * E, "default-epsilon", || format!("default epsilon of {n} = {t:?}"));
    }
    let t = <Length as AbsDiffEq>::default_epsilon();
    c.check(relabs(t.m(), 1e-4) < 4. * E, "default-epsilon", || format!("default epsilon of Length = {t:?}"));
    c.hu(c.idx);
    c.cell("predefined tolerances");
    c.nontrivial();
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C05",
            rule: "axes of every kind and unit: raw coordinates normalized, compared with an independent axis table (order, direction, unit), denormalized into a buffer with sentinels beyond its dimension",
            assumptions: &[],
            must_see: &["EastNorthUp", "NorthEastUp", "EastNorth", "NorthEast", "NorthWest", "round trip", "longitude out of range", "longitude in range"],
            streams: vec![
                Stream { name: "geodetic-axes", quick: 400_000, thorough: 30_000_000, f: geo_case },
                Stream { name: "geodetic-axes-grid", quick: 60, thorough: 60, f: geo_grid },
            ],
        },
        Property {
            id: "C06",
            rule: "projected axes of every unit and geocentric axes: normalize, denormalize (sentinels), tolerances, distances against scaled Euclidean arithmetic",
            assumptions: &[],
            must_see: &["projected EastNorthUp", "projected EastNorth", "geocentric"],
            streams: vec![Stream { name: "cartesian-axes", quick: 400_000, thorough: 30_000_000, f: cart_case }],
        },
        Property {
            id: "C19",
            rule: "pairs of positions whose offset on each axis is known to be below or above the tolerance; one axis at a time decides the expected verdict",
            assumptions: &["offsets within 0.1% of the tolerance are judged only where the difference is exact"],
            must_see: &["decided by first axis", "decided by second axis", "decided by third axis", "equal", "different", "across the antimeridian", "geocentric CRS", "geographic CRS", "projected CRS", "predefined tolerances", "reporting helpers", "at the tolerance", "at twice the tolerance", "nil tolerance", "tiny tolerance", "huge tolerance"],
            streams: vec![
                Stream { name: "approx", quick: 200_000, thorough: 20_000_000, f: approx_case },
                Stream { name: "crs-approx", quick: 200_000, thorough: 20_000_000, f: crs_approx },
                Stream { name: "scales", quick: 200_000, thorough: 20_000_000, f: scales_case },
                Stream { name: "boundary", quick: 200_000, thorough: 10_000_000, f: boundary_case },
                Stream { name: "reports", quick: 5_000, thorough: 100_000, f: report_case },
                Stream { name: "tolerances", quick: 8, thorough: 8, f: consts },
            ],
        },
    ]
}
