//! C25 derived parameters of an ellipsoid, C26 well-known constants, C27 equality.
use crate::gen::*;
use crate::mon::*;
use crate::p_axes::*;
use crate::refs;
use geokit::crs::Crs;
use geokit::crs::geocentric::GeocentricCrs;
use geokit::crs::geographic::GeographicCrs;
use geokit::crs::projected::ProjectedCrs;
use geokit::cs::cartesian::geocentric::GeocentricAxes;
use geokit::cs::cartesian::projected::ProjectedAxes;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::geodesy::geodetic_datum::consts as dc;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::projections::ProjectionSpec;
use geokit::quantities::angle::Angle;
use geokit::quantities::length::Length;
use geokit::units::angle::{AngleUnit, RAD};
use geokit::units::length::{LengthUnit, M};
use std::f64::consts::{FRAC_PI_2, PI, TAU};

const E: f64 = f64::EPSILON;

fn rel(g: f64, e: f64) -> f64 {
    if g == e {
        0.
    } else {
        (g - e).abs() / e.abs().max(1e-300)
    }
}

// ------------------------------------------------------------ C25

fn params(c: &mut Case) -> (Ellipsoid, f64, f64, f64, &'static str) {
    let a = match c.rng.below(4) {
        0 => 6378137.,
        1 => c.rng.range(6.3e6, 6.4e6),
        2 => c.rng.log(1e-3, 1e12),
        _ => 1.,
    };
    match c.rng.below(6) {
        0 => {
            let r = c.rng.pick(rows());
            (r.e.clone(), r.a, r.b, r.invf, "well-known")
        }
        1 => (Ellipsoid::from_ab("s", a * M, a * M), a, a, f64::INFINITY, "sphere"),
        2 | 3 => {
            let b = match c.rng.below(4) {
                0 => a * (1. - c.rng.log(1e-12, 1e-2)),
                1 => a * c.rng.range(0.3, 1.),
                2 => a.next_down(),
                _ => a * (1. - 1. / c.rng.range(190., 400.)),
            };
            let invf = if a > b { 1. / ((a - b) / a) } else { f64::INFINITY };
            (Ellipsoid::from_ab("ab", a * M, b * M), a, b, invf, "from a and b")
        }
        _ => {
            let invf = match c.rng.below(5) {
                0 => c.rng.log(1.5, 10.),
                1 => c.rng.log(300., 1e12),
                2 => f64::INFINITY,
                _ => c.rng.range(190., 400.),
            };
            (Ellipsoid::from_ainvf("ainvf", a * M, invf), a, a - a / invf, invf, "from a and 1/f")
        }
    }
}

fn c25_derived(c: &mut Case) {
    let (e, a, b, invf, kind) = params(c);
    c.cell(kind);
    c.hs(&[a, b, invf]);
    let la = lat(&mut c.rng);
    c.h(la);
    c.nontrivial();
    let what = || format!("ellipsoid {e:?}");
    c.sample(what);
    c.check(e.a().m() == a, "a", || format!("{}: a = {:?}, given {a:?}", what(), e.a().m()));
    c.within(rel(e.b().m(), b), 4. * E, "b", || format!("{}: b = {:?}, expected {b:?}", what(), e.b().m()));
    let ok = if invf.is_infinite() { e.invf() == invf } else { rel(e.invf(), invf) <= 4. * E };
    c.check(ok, "invf", || format!("{}: 1/f = {:?}, expected {invf:?}", what(), e.invf()));
    c.within((e.f() - 1. / invf).abs(), 4. * E, "f", || format!("{}: f = {:?}, expected {:?}", what(), e.f(), 1. / invf));
    // everything below follows from the two axes
    let (ga, gb) = (e.a().m(), e.b().m());
    c.check(gb > 0. && gb <= ga, "oblate", || format!("{}: not oblate", what()));
    let d = ga - gb;
    let sph = d == 0. || invf.is_infinite();
    c.check(e.is_spherical() == sph, "spherical", || format!("{}: is_spherical() {}", what(), e.is_spherical()));
    if sph {
        c.cell("spherical");
    }
    let q = [
        ("a_sq", e.a_sq(), ga * ga, 0.),
        ("b_sq", e.b_sq(), gb * gb, 0.),
        ("n", e.n(), d / (ga + gb), 4. * E),
        ("e_sq", e.e_sq(), d / ga * ((ga + gb) / ga), 4. * E),
        ("e", e.e(), e.e_sq().max(0.).sqrt(), 0.),
        // a^2 - b^2 may be formed with a rounding error on each square
        ("e_prime_sq", e.e_prime_sq(), d / gb * ((ga + gb) / gb), 4. * E * (ga / gb).powi(2)),
    ];
    for (n, g, x, abs) in q {
        c.within((g - x).abs(), 8. * E * x.abs() + abs + 1e-300, "quantity", || format!("{}: {n} = {g:?}, expected {x:?}", what()));
    }
    let (g, x) = (e.e_prime(), e.e_prime_sq().max(0.).sqrt());
    c.within((g - x).abs(), 4. * E * x + 1e-300, "e_prime", || format!("{}: e' = {g:?}, expected {x:?}", what()));

    // latitudes and radii
    let l = mk_lat(la);
    let (s, k) = (la.sin(), la.cos());
    let w = || format!("{} at latitude {la:?} rad", what());
    let r = gb / ga;
    let amp = 1. / (r * r);
    let Some((rl, gl, nn, mm, cs)) = c.call("panic", w, || (e.reduced_latitude(l).rad(), e.geocentric_latitude(l).rad(), e.prime_vertical_radius(l).m(), e.prime_meridional_radius(l).m(), e.conformal_sphere_radius(l).m())) else { return };
    let fx = (r * s).atan2(k);
    c.within((rl - fx).abs(), 16. * E, "reduced-latitude", || format!("{}: reduced latitude {rl:?}, expected {fx:?}", w()));
    let fx = (r * r * s).atan2(k);
    c.within((gl - fx).abs(), 16. * E * amp, "geocentric-latitude", || format!("{}: geocentric latitude {gl:?}, expected {fx:?}", w()));
    let h = (k * k + r * r * s * s).sqrt();
    let (en, em) = (ga / h, ga * r * r / (h * h * h));
    c.within(rel(nn, en), 16. * E * amp, "prime-vertical", || format!("{}: N = {nn:?}, expected {en:?}", w()));
    c.within(rel(mm, em), 48. * E * amp, "meridional", || format!("{}: M = {mm:?}, expected {em:?}", w()));
    let ec = (en * em).sqrt();
    c.within(rel(cs, ec), 48. * E * amp, "conformal", || format!("{}: conformal sphere radius {cs:?}, expected {ec:?}", w()));
    // the radius of curvature is largest at the poles, and M <= N everywhere
    c.check(mm <= nn * (1. + 64. * E * amp), "m-le-n", || format!("{}: M = {mm:?} > N = {nn:?}", w()));
    c.cell(if la.abs() > FRAC_PI_2 - 1e-6 {
        "pole"
    } else if la.abs() < 1e-6 {
        "equator"
    } else {
        "between"
    });
}

fn c25_refused(c: &mut Case) {
    let a = c.rng.log(1e-3, 1e9);
    let bad_b = match c.rng.below(6) {
        0 => 0.,
        1 => -a * c.rng.f(),
        2 => a * (1. + c.rng.log(1e-15, 10.)),
        3 => a.next_up(),
        4 => f64::NAN,
        _ => -0.,
    };
    c.hs(&[a, bad_b]);
    c.nontrivial();
    let r = guard(|| Ellipsoid::from_ab("x", a * M, bad_b * M));
    c.check(r.is_err(), "refused-ab", || format!("from_ab({a:?}, {bad_b:?}) gives {r:?}"));
    c.cell("bad semi-minor axis");
    let bad_f = match c.rng.below(5) {
        0 => 1.,
        1 => 0.,
        2 => c.rng.f(),
        3 => -c.rng.log(1e-3, 1e3),
        _ => f64::NAN,
    };
    let r = guard(|| Ellipsoid::from_ainvf("x", a * M, bad_f));
    c.check(r.is_err(), "refused-invf", || format!("from_ainvf({a:?}, {bad_f:?}) gives {r:?}"));
    c.cell("bad inverse flattening");
    let bad_a = *c.rng.pick(&[0., -0., -1., -6378137., f64::NAN]);
    let r = guard(|| Ellipsoid::from_ainvf("x", bad_a * M, 300.));
    c.check(r.is_err(), "refused-a", || format!("from_ainvf({bad_a:?}, 300) gives {r:?}"));
    let r = guard(|| Ellipsoid::from_ab("x", bad_a * M, 1. * M));
    c.check(r.is_err(), "refused-a", || format!("from_ab({bad_a:?}, 1) gives {r:?}"));
    c.cell("bad semi-major axis");
}

// ------------------------------------------------------------ C26

fn rows() -> &'static Vec<refs::EllRow> {
    thread_local!(static T: &'static Vec<refs::EllRow> = Box::leak(Box::new(refs::ellipsoids())));
    T.with(|t| *t)
}

fn c26_ellipsoids(c: &mut Case) {
    let t = rows();
    let r = &t[c.idx as usize % t.len()];
    c.hu(c.idx);
    c.nontrivial();
    c.cell("ellipsoid");
    let w = || format!("ellipsoid constant {}: {:?}", r.id, r.e);
    c.within(rel(r.e.a().m(), r.a), E, "ellipsoid-a", || format!("{}, a = {:?} is published", w(), r.a));
    c.within(rel(r.e.b().m(), r.b), 4. * E, "ellipsoid-b", || format!("{}, b = {:?} is published", w(), r.b));
    let ok = if r.invf.is_infinite() { r.e.invf() == r.invf } else { rel(r.e.invf(), r.invf) <= 4. * E };
    c.check(ok, "ellipsoid-invf", || format!("{}, 1/f = {:?} is published", w(), r.invf));
    c.check(r.e.is_spherical() == (r.a == r.b), "ellipsoid-sphere", || w());
    c.check(!r.e.name().is_empty(), "ellipsoid-name", || w());
    // the same ellipsoid built from its published parameters
    let o = if r.a == r.b {
        Ellipsoid::from_ab("o", r.a * M, r.b * M)
    } else {
        Ellipsoid::from_ainvf("o", r.a * M, r.invf)
    };
    c.within((o.e_sq() - r.e.e_sq()).abs(), 8. * E, "ellipsoid-e", || format!("{}, built {o:?}", w()));
}

fn c26_meridians(c: &mut Case) {
    let t = refs::meridians();
    let r = &t[c.idx as usize % t.len()];
    c.hu(c.idx);
    c.nontrivial();
    c.cell("prime meridian");
    let g = r.pm.lon().angle().rad() / D2R;
    // published to a thousandth of a second of arc at best
    c.within((g - r.deg).abs(), 1e-12, "meridian", || format!("prime meridian constant {}: {g:?} degrees, {:?} is published", r.id, r.deg));
    c.check(r.pm.name().eq_ignore_ascii_case(r.id), "meridian-name", || format!("prime meridian constant {} is named {}", r.id, r.pm.name()));
}

fn c26_datums(c: &mut Case) {
    use geokit::geodesy::ellipsoid::consts as ec;
    use geokit::geodesy::prime_meridian::consts as pc;
    let t: Vec<(&str, GeodeticDatum, Ellipsoid)> = vec![("WGS84", dc::WGS84, ec::WGS84), ("GGRS87", dc::GGRS87, ec::GRS80), ("NAD83", dc::NAD83, ec::GRS80), ("RNB72", dc::RNB72, ec::INTL)];
    let (n, d, e) = &t[c.idx as usize % t.len()];
    c.hu(c.idx);
    c.nontrivial();
    c.cell("datum");
    c.check(d.id() == *n, "datum", || format!("datum constant {n}: {d:?}"));
    c.check(d.ellipsoid() == e && d.ellipsoid().name() == e.name(), "datum", || format!("datum constant {n} uses {:?}", d.ellipsoid()));
    c.check(d.prime_meridian() == &pc::GREENWICH && d.prime_meridian().lon().angle().rad() == 0., "datum", || format!("datum constant {n} uses {:?}", d.prime_meridian()));
}

// ------------------------------------------------------------ C27

const NAMES: [&str; 14] = [" ", "WGS 84 ", " WGS 84", "WGS84", "WGS 84\0", "A name of 23 bytes, yes", "A name of 23 bytes, yes!", "A name of 23 bytes, yet", "", "WGS 84", "wgs 84", "A rather long name that does not fit inline in a small string", "A rather long name that does not fit inline in a small strinG", "é"];

fn sym<T: PartialEq + std::fmt::Debug + Clone>(c: &mut Case, a: &T, b: &T, same: bool, key: &'static str) {
    c.check((a == b) == same && (b == a) == same && (a != b) == !same, key, || format!("{a:?} == {b:?} is {}, expected {same}", a == b));
    let cl = a.clone();
    c.check(&cl == a, key, || format!("{a:?} differs from its clone {cl:?}"));
}

/// a name, or a text found in the sources
fn any_name(c: &mut Case) -> &'static str {
    match crate::dict::dict() {
        Some(d) if !d.texts.is_empty() && c.rng.chance(1, 3) => c.rng.pick(&d.texts).as_str(),
        _ => *c.rng.pick(&NAMES),
    }
}

fn c27_ellipsoid(c: &mut Case) {
    let a = c.rng.range(6.3e6, 6.4e6);
    let b = a * (1. - 1. / c.rng.range(190., 400.));
    let (na, nb) = (any_name(c), any_name(c));
    let x = Ellipsoid::from_ab(na, a * M, b * M);
    c.hs(&[a, b]);
    c.nontrivial();
    let y = Ellipsoid::from_ab(nb, a * M, b * M);
    c.cell("ellipsoids of any name");
    sym(c, &x, &y, true, "ellipsoid-eq");
    c.check(x.name() == na && y.name() == nb, "name", || format!("named {:?} instead of {na:?}", x.name()));
    c.cell("ellipsoids that differ");
    let (a2, b2) = match c.rng.below(4) {
        0 => (a.next_up(), b),
        1 => (a, b.next_down()),
        2 => (a + c.rng.range(0.001, 100.), b),
        _ => (a, b - c.rng.range(0.001, 100.)),
    };
    let z = Ellipsoid::from_ab(na, a2 * M, b2 * M);
    sym(c, &x, &z, false, "ellipsoid-ne");
    // another size, the same inverse flattening
    let f = c.rng.range(190., 400.);
    let a3 = match c.rng.below(3) {
        0 => a.next_up(),
        1 => a * (1. + c.rng.log(1e-15, 1e-6)),
        _ => a + c.rng.range(0.001, 100.),
    };
    let (u, v) = (Ellipsoid::from_ainvf(na, a * M, f), Ellipsoid::from_ainvf(na, a3 * M, f));
    c.cell("another size, the same inverse flattening");
    sym(c, &u, &v, a == a3, "ellipsoid-size");
    // the same axes, reached through the inverse flattening
    let w = Ellipsoid::from_ainvf(nb, a * M, if c.rng.chance(1, 2) { c.rng.range(190., 400.) } else { 10f64.powf(c.rng.range(1., 18.)) });
    let v = Ellipsoid::from_ab(na, w.a(), w.b());
    c.cell("the same axes and another inverse flattening");
    sym(c, &w, &v, w.invf() == v.invf(), "ellipsoid-invf");
}

fn c27_meridian(c: &mut Case) {
    let l = lon(&mut c.rng);
    c.h(l);
    c.nontrivial();
    let (na, nb) = (any_name(c), any_name(c));
    let mk = |n: &str, r: f64| PrimeMeridian::new(n, Lon::new(Angle::new(r, RAD)));
    let x = mk(na, l);
    sym(c, &x, &mk(nb, l), true, "meridian-eq");
    c.cell("meridians of any name");
    c.check(x.name() == na, "name", || format!("named {:?} instead of {na:?}", x.name()));
    let g = x.lon().angle().rad();
    c.check(g > -PI && g <= PI, "meridian-range", || format!("prime meridian at {l:?} rad: longitude {g:?} not in (-pi..pi]"));
    let d = (g - l).rem_euclid(TAU);
    c.within(d.min(TAU - d), 1e-15, "meridian-lon", || format!("prime meridian at {l:?} rad: longitude {g:?}"));
    if l.abs() == PI {
        c.cell("the antimeridian as prime meridian");
        sym(c, &x, &mk(nb, -l), true, "meridian-antimeridian");
    }
    let m = match c.rng.below(3) {
        0 => l + 1e-9,
        1 => l.next_up(),
        _ => l + c.rng.range(0.01, 3.),
    };
    sym(c, &x, &mk(na, m), false, "meridian-ne");
    c.cell("meridians that differ");
}

fn c27_datum(c: &mut Case) {
    let e = ell_earth(&mut c.rng);
    let p = pm_any(&mut c.rng);
    let id = any_name(c);
    c.hs(&[e.a, e.b, p.lon]);
    c.nontrivial();
    let d = GeodeticDatum::new(id, e.e.clone(), p.pm.clone());
    c.check(d.id() == id && d.ellipsoid() == &e.e && d.prime_meridian() == &p.pm && d.ellipsoid().name() == e.e.name() && d.prime_meridian().name() == p.pm.name(), "datum-parts", || format!("datum of {id:?}, {:?}, {:?}: {d:?}", e.e, p.pm));
    sym(c, &d, &GeodeticDatum::new(String::from(id), e.e.clone(), p.pm.clone()), true, "datum-eq");
    c.cell("datums that are equal");
    // names of the components do not matter
    let e2 = if e.sphere() { e.e.clone() } else { rename(&e.e) };
    let p2 = PrimeMeridian::new("another name", p.pm.lon());
    let same = e2 == e.e && p2 == p.pm;
    sym(c, &d, &GeodeticDatum::new(id, e2, p2), same, "datum-component-names");
    let other = any_name(c);
    if other != id {
        sym(c, &d, &GeodeticDatum::new(other, e.e.clone(), p.pm.clone()), false, "datum-id");
        c.cell("datums of another id");
    }
    let e3 = from_ab(e.a + 0.001, e.b);
    sym(c, &d, &GeodeticDatum::new(id, e3.e, p.pm.clone()), false, "datum-ellipsoid");
    c.cell("datums of another ellipsoid");
    let p3 = pm_of(p.lon + c.rng.range(1e-6, 3.));
    sym(c, &d, &GeodeticDatum::new(id, e.e.clone(), p3.pm), false, "datum-meridian");
    c.cell("datums of another prime meridian");
}
fn rename(e: &Ellipsoid) -> Ellipsoid {
    Ellipsoid::from_ab("another name", e.a(), e.b())
}

fn c27_crs(c: &mut Case) {
    let e = ell_earth(&mut c.rng);
    let p = pm_any(&mut c.rng);
    let d = datum(&e, &p);
    let d2 = GeodeticDatum::new("other", e.e.clone(), p.pm.clone());
    let d3 = GeodeticDatum::new(d.id(), from_ab(e.a + 0.001, e.b).e, p.pm.clone());
    // axes, and axes that differ from them in a single component
    let (kind, (au, af, _), (hu, hf, _), (hz, zf, _)) = (c.rng.below(5), angle_unit(&mut c.rng), length_unit(&mut c.rng), length_unit(&mut c.rng));
    let close = c.rng.chance(1, 3);
    let (au2, af2) = if close { let u = AngleUnit(au.0.next_up(), au.1); (u, u.0 / u.1) } else { loop {
        let (u, f, _) = angle_unit(&mut c.rng);
        if (f / af - 1.).abs() > 1e-9 {
            break (u, f);
        }
    } };
    let other = |c: &mut Case, f0: f64| loop {
        let (u, f, _) = length_unit(&mut c.rng);
        if (f / f0 - 1.).abs() > 1e-9 {
            return (u, f);
        }
    };
    let ((hu2, hf2), (hz2, zf2)) = if close {
        let near = |u: LengthUnit| { let v = LengthUnit(u.0 * (1. + 1e-10), u.1); (v, v.0 / v.1) };
        c.cell("units that differ in the last digits");
        (near(hu), near(hz))
    } else {
        (other(c, hf), other(c, zf))
    };
    let g = geo_spec(kind, au, af, hu, hf);
    let gs = [
        (geo_spec(kind, au2, af2, hu, hf), false),
        (geo_spec(kind, au, af, hu2, hf2), g.dim == 2),
        (geo_spec((kind + 1 + c.rng.below(4)) % 5, au, af, hu, hf), false),
        (geo_spec(kind, au, af, hu, hf), true),
    ];
    let q3 = c.rng.chance(1, 2);
    let mk_q = |d3: bool, (hz, zf): (LengthUnit, f64), (hu, hf): (LengthUnit, f64)| {
        let axes = if d3 { ProjectedAxes::EastNorthUp { horiz_unit: hz, height_unit: hu } } else { ProjectedAxes::EastNorth { horiz_unit: hz } };
        ProjSpec { axes, name: "", dim: if d3 { 3 } else { 2 }, hz: zf, hu: hf }
    };
    let q = mk_q(q3, (hz, zf), (hu, hf));
    let qs = [
        (mk_q(q3, (hz2, zf2), (hu, hf)), false),
        (mk_q(q3, (hz, zf), (hu2, hf2)), !q3),
        (mk_q(!q3, (hz, zf), (hu, hf)), false),
        (mk_q(q3, (hz, zf), (hu, hf)), true),
    ];
    c.hs(&[e.a, e.b, p.lon, g.au, g.hu, q.hz, q.hu]);
    c.nontrivial();
    for (d_, id, same) in [(&d, "a", true), (&d, "b", false), (&d2, "a", false), (&d3, "a", false)] {
        let mk = |d: &GeodeticDatum, id: &str| GeocentricCrs { id: id.into(), datum: d.clone(), axes: GeocentricAxes::XYZ };
        sym(c, &mk(&d, "a"), &mk(d_, id), same, "geocentric-crs");
        let mk = |d: &GeodeticDatum, id: &str, s: &GeoSpec| GeographicCrs { id: id.into(), datum: d.clone(), axes: s.axes };
        sym(c, &mk(&d, "a", &g), &mk(d_, id, &g), same, "geographic-crs");
        for (g2, eq) in &gs {
            sym(c, &mk(&d, "a", &g), &mk(d_, id, g2), same && *eq, "geographic-crs-axes");
        }
    }
    c.cell("CRS");
    // every parameter of a projection counts
    let l = |v: f64| Lon::new(Angle::new(v, RAD));
    let m = |v: f64| Length::new(v, M);
    let (lo, la) = (c.rng.range(-3., 3.), c.rng.range(-1.4, 1.4));
    let (z, z2) = if c.rng.chance(1, 2) {
        let z = 1 + c.rng.below(60) as u8;
        (z, 1 + z % 60)
    } else {
        // any two different numbers, zones or not
        let z = c.rng.below(256) as u8;
        let d = if c.rng.chance(1, 2) { 60 } else { 1 + c.rng.below(255) as u8 };
        (z, z.wrapping_add(d))
    };
    let step = c.rng.usize(3);
    let spec = |k: usize, i: usize| {
        let v = |j: usize, x: f64| if i == j { [x + 1e-3, x + 1e-8, x.next_up()][step] } else { x };
        match k {
            0 => ProjectionSpec::Mercator1SP { lon0: l(v(1, lo)), k0: v(2, 1.), false_easting: m(v(3, 5e5)), false_northing: m(v(4, 1e6)) },
            1 => ProjectionSpec::Mercator2SP { lon0: l(v(1, lo)), lat0: Lat::new(Angle::new(v(2, la), RAD)), false_easting: m(v(3, 5e5)), false_northing: m(v(4, 1e6)) },
            2 => ProjectionSpec::UTMNorth { zone: if i == 1 { z2 } else { z } },
            3 => ProjectionSpec::UTMSouth { zone: if i == 1 { z2 } else { z } },
            4 => ProjectionSpec::TransverseMercator { lon0: l(v(1, lo)), lat0: Lat::new(Angle::new(v(2, la), RAD)), k0: v(5, 1.), false_easting: m(v(3, 5e5)), false_northing: m(v(4, 1e6)) },
            _ => ProjectionSpec::WebMercator { lon0: l(v(1, lo)), lat0: Lat::new(Angle::new(v(2, la), RAD)), false_easting: m(v(3, 5e5)), false_northing: m(v(4, 1e6)) },
        }
    };
    let np = [5, 5, 2, 2, 6, 5];
    let k = c.rng.usize(6);
    let mk = |d: &GeodeticDatum, id: &str, s: &ProjSpec, p: ProjectionSpec| ProjectedCrs { id: id.into(), datum: d.clone(), axes: s.axes, projection: p };
    let x = mk(&d, "a", &q, spec(k, 0));
    sym(c, &x, &mk(&d, "a", &q, spec(k, 0)), true, "projected-crs");
    // every CRS answers to its own identifier
    let id = format!("id {}", c.idx);
    let crs: [&dyn Crs; 3] = [
        &GeocentricCrs { id: id.as_str().into(), datum: d.clone(), axes: GeocentricAxes::XYZ },
        &GeographicCrs { id: id.as_str().into(), datum: d.clone(), axes: g.axes },
        &mk(&d, &id, &q, spec(k, 0)),
    ];
    for (crs, dim) in crs.into_iter().zip([3, g.dim, q.dim]) {
        let (i, n) = (crs.id().to_string(), crs.dim());
        c.check(i == id && n == dim, "crs-identifier", || format!("a CRS of identifier {id:?} and dimension {dim} answers {i:?} and {n}"));
    }
    for (q2, eq) in &qs {
        sym(c, &x, &mk(&d, "a", q2, spec(k, 0)), *eq, "projected-crs-axes");
        sym(c, &q.axes, &q2.axes, *eq, "projected-axes");
    }
    for (g2, eq) in &gs {
        sym(c, &g.axes, &g2.axes, *eq, "geodetic-axes");
    }
    sym(c, &x, &mk(&d2, "a", &q, spec(k, 0)), false, "projected-crs-datum");
    sym(c, &x, &mk(&d, "A", &q, spec(k, 0)), false, "projected-crs-id");
    for i in 1..np[k] {
        sym(c, &x, &mk(&d, "a", &q, spec(k, i)), false, "projected-crs-parameter");
    }
    for j in 0..6 {
        if j != k {
            sym(c, &x, &mk(&d, "a", &q, spec(j, 0)), false, "projected-crs-method");
        }
    }
    c.cell("projections");
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C25",
            rule: "derived parameters, auxiliary latitudes and radii of curvature against the defining formulas evaluated on the two axes in cancellation-free form; impossible parameters refused",
            assumptions: &["b >= 0.3 a"],
            must_see: &["well-known", "sphere", "from a and b", "from a and 1/f", "spherical", "pole", "equator", "between", "bad semi-minor axis", "bad inverse flattening", "bad semi-major axis"],
            streams: vec![
                Stream { name: "derived", quick: 600000, thorough: 30000000, f: c25_derived },
                Stream { name: "refused", quick: 20000, thorough: 200000, f: c25_refused },
            ],
        },
        Property {
            id: "C26",
            rule: "every exported ellipsoid, prime meridian and datum constant against the published table (PROJ/EPSG), prime meridians from their degrees, minutes and seconds",
            assumptions: &["the published values transcribed in harness/src/refs.rs"],
            must_see: &["ellipsoid", "prime meridian", "datum"],
            streams: vec![
                Stream { name: "ellipsoids", quick: 46, thorough: 46, f: c26_ellipsoids },
                Stream { name: "meridians", quick: 14, thorough: 14, f: c26_meridians },
                Stream { name: "datums", quick: 4, thorough: 4, f: c26_datums },
            ],
        },
        Property {
            id: "C27",
            rule: "equality of ellipsoids, prime meridians, datums and CRS: equal exactly when the significant components are, symmetric, clones equal",
            assumptions: &[],
            must_see: &["ellipsoids of any name", "ellipsoids that differ", "the same axes and another inverse flattening", "another size, the same inverse flattening", "units that differ in the last digits", "meridians of any name", "meridians that differ", "the antimeridian as prime meridian", "datums that are equal", "datums of another id", "datums of another ellipsoid", "datums of another prime meridian", "CRS", "projections"],
            streams: vec![
                Stream { name: "ellipsoid", quick: 100000, thorough: 3000000, f: c27_ellipsoid },
                Stream { name: "meridian", quick: 100000, thorough: 3000000, f: c27_meridian },
                Stream { name: "datum", quick: 100000, thorough: 3000000, f: c27_datum },
                Stream { name: "crs", quick: 50000, thorough: 1000000, f: c27_crs },
            ],
        },
    ]
}
