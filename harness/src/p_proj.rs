//! C09 Mercator, C10 Web Mercator, C11/C12 Transverse Mercator, C13 UTM, C14 totality.
use crate::cplx::*;
use crate::gen::*;
use crate::mon::*;
use crate::p_angle::circ;
use crate::vec3::*;
use geokit::cs::cartesian::projected::ENH;
use geokit::cs::geodetic::LLH;
use geokit::projections::{Projection, ProjectionSpec};
use geokit::units::length::M;
use std::f64::consts::{FRAC_PI_2, PI, TAU};

pub fn llh(lo: f64, la: f64, h: f64) -> LLH {
    LLH { lon: mk_lon(lo), lat: mk_lat(la), height: mk_len(h) }
}
pub fn enh(e: f64, n: f64, h: f64) -> ENH {
    ENH { easting: e * M, northing: n * M, height: h * M }
}

fn falses(c: &mut Case) -> (f64, f64) {
    match c.rng.below(5) {
        0 => (0., 0.),
        1 => (500000., *c.rng.pick(&[0., 1e7])),
        2 => (c.rng.range(-5e6, 5e6), c.rng.range(-5e6, 5e6)),
        3 => (c.rng.log(1., 1e9) * c.rng.sign(), c.rng.log(1., 1e9) * c.rng.sign()),
        _ => (400000., -100000.),
    }
}
fn scale(c: &mut Case) -> f64 {
    match c.rng.below(4) {
        0 => 1.,
        1 => 0.9996,
        2 => c.rng.range(0.9, 1.1),
        _ => c.rng.log(0.5, 2.),
    }
}
/// difference in (-pi, pi]
fn oriented(from: f64, to: f64) -> f64 {
    let mut d = (to - from) % TAU;
    if d > PI {
        d -= TAU
    } else if d <= -PI {
        d += TAU
    }
    d
}

// ------------------------------------------------------------ Mercator

/// latitude of an isometric latitude
fn inv_isometric(e: f64, q: f64) -> f64 {
    let mut z = q;
    for _ in 0..100 {
        let n = q + e * (e * z.tanh()).atanh();
        let d = (n - z).abs();
        z = n;
        if d < 1e-17 * (1. + z.abs()) {
            break;
        }
    }
    // atan(sinh z), accurate at both ends
    z.sinh().atan()
}

struct Merc {
    spec: ProjectionSpec,
    a: f64,
    e: f64,
    k0: f64,
    lon0: f64,
    fe: f64,
    fnorth: f64,
    desc: String,
}

fn mercator(c: &mut Case, e: &Ell) -> Merc {
    let lon0 = lon(&mut c.rng);
    let (fe, fnorth) = falses(c);
    if c.rng.chance(1, 2) {
        let k0 = scale(c);
        c.cell("Mercator 1SP");
        Merc {
            spec: ProjectionSpec::Mercator1SP { lon0: mk_lon(lon0), k0, false_easting: fe * M, false_northing: fnorth * M },
            a: e.a,
            e: e.e2().sqrt(),
            k0,
            lon0,
            fe,
            fnorth,
            desc: format!("Mercator1SP(lon0 {lon0:?}, k0 {k0:?}, FE {fe:?}, FN {fnorth:?}) on {} a={:?} b={:?}", e.id, e.a, e.b),
        }
    } else {
        let lat0 = if c.rng.chance(1, 6) { 0. } else { c.rng.range(-88., 88.) * D2R };
        c.cell("Mercator 2SP");
        if lat0 < 0. {
            c.cell("southern standard parallel");
        }
        // scale 1 on the parallel: k0 a = radius of the parallel
        let w = (e.a * lat0.cos()).hypot(e.b * lat0.sin());
        let k0 = e.a * lat0.cos() / w;
        Merc {
            spec: ProjectionSpec::Mercator2SP { lon0: mk_lon(lon0), lat0: mk_lat(lat0), false_easting: fe * M, false_northing: fnorth * M },
            a: e.a,
            e: e.e2().sqrt(),
            k0,
            lon0,
            fe,
            fnorth,
            desc: format!("Mercator2SP(lon0 {lon0:?}, lat0 {lat0:?}, FE {fe:?}, FN {fnorth:?}) on {} a={:?} b={:?}", e.id, e.a, e.b),
        }
    }
}

fn webmercator(c: &mut Case, e: &Ell) -> Merc {
    let lon0 = if c.rng.chance(1, 2) { 0. } else { lon(&mut c.rng) };
    let (fe, fnorth) = falses(c);
    Merc {
        spec: ProjectionSpec::WebMercator { lon0: mk_lon(lon0), lat0: mk_lat(0.), false_easting: fe * M, false_northing: fnorth * M },
        a: e.a,
        e: 0.,
        k0: 1.,
        lon0,
        fe,
        fnorth,
        desc: format!("WebMercator(lon0 {lon0:?}, FE {fe:?}, FN {fnorth:?}) on {} a={:?} b={:?}", e.id, e.a, e.b),
    }
}

fn run_merc_on(c: &mut Case, m: &Merc, p: &dyn Projection, lo: f64, la: f64, h: f64, series: bool) {
    let ctx = format!("{}, lon {lo:?} lat {la:?} h {h:?}", m.desc);
    let ak = m.a * m.k0;
    // conditioning: one rounding of the latitude moves the northing by eps / cos(lat)
    let tol_f = 4e-15 * (ak * PI + m.fe.abs() + m.fnorth.abs()) + 1e-15 * ak / la.cos();
    let dl = oriented(m.lon0, lo);
    let en = ak * isometric(m.e, la);
    if let Some(r) = c.call("panic", || ctx.clone(), || p.proj(llh(lo, la, h))) {
        match r {
            Err(e) => c.violate("proj-error", format!("{ctx}: {e:?}")),
            Ok(r) => {
                let de = r.easting.m() - m.fe;
                let mut err = (de - ak * dl).abs();
                if PI - dl.abs() < 1e-14 {
                    err = err.min((de + ak * dl).abs());
                    c.cell("antipodal meridian");
                }
                c.within(err, tol_f, "easting", || format!("{ctx}: easting {:?}, expected {:?}", r.easting.m(), m.fe + ak * dl));
                c.within((r.northing.m() - m.fnorth - en).abs(), tol_f, "northing", || {
                    format!("{ctx}: northing {:?}, expected {:?}", r.northing.m(), m.fnorth + en)
                });
                c.check(r.height.m() == h, "height", || format!("{ctx}: height {:?}", r.height.m()));
                if dl.abs() < PI && (lo - m.lon0).abs() > PI {
                    c.cell("difference of longitudes across the antimeridian");
                }
                c.cell(if la < 0. { "south" } else { "north" });
                c.sample(|| format!("{ctx} -> {r}"));
                // exact inverse of what was just produced
                if let Some(b) = c.call("panic", || ctx.clone(), || p.unproj(r)) {
                    match b {
                        Err(e) => c.violate("unproj-error", format!("{ctx}: projected to {r} but unproj gave {e:?}")),
                        Ok(b) => {
                            let (blo, bla) = (b.lon.angle().rad(), b.lat.angle().rad());
                            let t = if series { inv_tol(m.e) } else { 1e-14 } + (tol_f / ak) * la.cos();
                            let tl = 1e-14 + tol_f / ak;
                            c.within((bla - la).abs(), t, "roundtrip-lat", || format!("{ctx} -> {r} -> lat {bla:?}"));
                            c.within(circ(blo, lo), tl, "roundtrip-lon", || format!("{ctx} -> {r} -> lon {blo:?}"));
                            c.check(b.height.m() == h, "height", || format!("{ctx}: height {:?}", b.height.m()));
                        }
                    }
                }
            }
        }
    }
    // inverse of an arbitrary grid position
    let x = c.rng.range(-PI, PI);
    let q = match c.rng.below(4) {
        0 => c.rng.range(-8., 8.),
        1 => c.rng.log(1e-12, 1.) * c.rng.sign(),
        _ => c.rng.range(-3., 3.),
    };
    let mut g = enh(m.fe + ak * x, m.fnorth + ak * q, h);
    if c.rng.chance(1, 3) {
        let (x, y) = grid(c, m.fe, ak * PI, m.fnorth, ak * 3.);
        g = enh(x, y, h);
        c.cell("chosen on the grid");
    }
    let q = (g.northing.m() - m.fnorth) / ak;
    let x = (g.easting.m() - m.fe) / ak;
    if let Some(r) = c.call("panic", || format!("{}: {g}", m.desc), || p.unproj(g)) {
        match r {
            Err(e) => c.violate("unproj-error", format!("{}: {g}: {e:?}", m.desc)),
            Ok(b) => {
                let (blo, bla) = (b.lon.angle().rad(), b.lat.angle().rad());
                let ela = inv_isometric(m.e, q);
                let t = if series { inv_tol(m.e) } else { 0. } + 1e-14 + 4e-16 * (m.fnorth.abs() + m.fe.abs()) / ak;
                c.within((bla - ela).abs(), t, "inverse-lat", || format!("{}: {g} -> lat {bla:?}, expected {ela:?}", m.desc));
                let tl = 1e-14 + 8e-16 * m.fe.abs() / ak;
                c.within(circ(blo, m.lon0 + x), tl, "inverse-lon", || format!("{}: {g} -> lon {blo:?}, expected {:?}", m.desc, m.lon0 + x));
                c.check(blo.abs() <= PI && bla.abs() <= FRAC_PI_2, "inverse-range", || format!("{}: {g} -> {b}", m.desc));
                c.check(b.height.m() == h, "height", || format!("{}: {g} -> {b}", m.desc));
            }
        }
    }
    c.nontrivial();
}

/// a position chosen on the grid, within `we` and `wn` of the false origin: round numbers, the
/// coordinates of the origin, equal or opposite coordinates, numbers of the sources
fn grid(c: &mut Case, fe: f64, we: f64, fnorth: f64, wn: f64) -> (f64, f64) {
    let mut one = |f: f64, w: f64| -> f64 {
        match c.rng.below(6) {
            0 => {
                let u = *c.rng.pick(&[1., 10., 1e3, 1e4, 1e5, 1e6]);
                ((f + c.rng.range(-w, w)) / u).round() * u
            }
            1 => f,
            2 => 0.,
            _ => c.rng.range(f - w, f + w),
        }
    };
    let mut x = one(fe, we);
    let mut y = one(fnorth, wn);
    match c.rng.below(12) {
        0 => y = x,
        1 => y = -x,
        _ => {}
    }
    if (x - fe).abs() > we {
        x = fe;
    }
    if (y - fnorth).abs() > wn {
        y = fnorth;
    }
    (x, y)
}

/// accuracy of the series of order e^8 used by the inverse (rad)
fn inv_tol(e: f64) -> f64 {
    0.25 * e.powi(10)
}

fn merc_case(c: &mut Case) {
    let e = ell_earth(&mut c.rng);
    merc_on(c, &e)
}
fn merc_flat(c: &mut Case) {
    let e = ell_flat(&mut c.rng);
    merc_on(c, &e)
}
fn merc_on(c: &mut Case, e: &Ell) {
    let m = mercator(c, e);
    let lo = lon(&mut c.rng);
    let la = lat(&mut c.rng).clamp(-89.99 * D2R, 89.99 * D2R);
    let h = height(&mut c.rng);
    c.hs(&[m.a, m.e, m.k0, m.lon0, m.fe, m.fnorth, lo, la]);
    let Some(p) = c.call("panic", || m.desc.clone(), || m.spec.applied_to(&e.e)) else { return };
    if e.sphere() {
        c.cell("sphere");
    }
    run_merc_on(c, &m, &*p, lo, la, h, true);
}

fn web_case(c: &mut Case) {
    let e = ell_any(&mut c.rng);
    let m = webmercator(c, &e);
    let lo = lon(&mut c.rng);
    let la = lat(&mut c.rng).clamp(-89.99 * D2R, 89.99 * D2R);
    let h = height(&mut c.rng);
    c.hs(&[m.a, m.lon0, m.fe, m.fnorth, lo, la]);
    let Some(p) = c.call("panic", || m.desc.clone(), || m.spec.applied_to(&e.e)) else { return };
    c.cell("web mercator");
    run_merc_on(c, &m, &*p, lo, la, h, false);
}

// ------------------------------------------------------------ Transverse Mercator

struct Tm {
    p: Box<dyn Projection>,
    e: Ell,
    lon0: f64,
    lat0: f64,
    k0: f64,
    fe: f64,
    /// false northing minus scaled arc of the origin
    n0: f64,
    fnorth: f64,
    desc: String,
}

fn tm(c: &mut Case, e: Ell) -> Option<Tm> {
    let lon0 = if c.rng.chance(1, 4) { c.rng.below(120) as f64 * 3. * D2R - PI } else { lon(&mut c.rng) };
    let lat0 = match c.rng.below(6) {
        0 | 1 => 0.,
        2 => *c.rng.pick(&[FRAC_PI_2, -FRAC_PI_2, 49. * D2R, -30. * D2R]),
        _ => lat(&mut c.rng),
    };
    let k0 = scale(c);
    let (fe, fnorth) = falses(c);
    let spec = ProjectionSpec::TransverseMercator { lon0: mk_lon(lon0), lat0: mk_lat(lat0), k0, false_easting: fe * M, false_northing: fnorth * M };
    let desc = format!("TM(lon0 {lon0:?}, lat0 {lat0:?}, k0 {k0:?}, FE {fe:?}, FN {fnorth:?}) on {} a={:?} b={:?}", e.id, e.a, e.b);
    let p = c.call("panic", || desc.clone(), || spec.applied_to(&e.e))?;
    if lat0 != 0. {
        c.cell("origin off the equator");
    }
    if lat0.abs() == FRAC_PI_2 {
        c.cell("origin at a pole");
    }
    if e.sphere() {
        c.cell("sphere");
    }
    let n0 = fnorth - k0 * meridian_arc(e.a, e.b, lat0);
    Some(Tm { p, e, lon0, lat0, k0, fe, n0, fnorth, desc })
}

fn utm(c: &mut Case) -> Option<Tm> {
    let e = ell_earth(&mut c.rng);
    let zone = 1 + (c.idx % 60) as u8;
    let south = (c.idx / 60) % 2 == 1;
    let spec = if south { ProjectionSpec::UTMSouth { zone } } else { ProjectionSpec::UTMNorth { zone } };
    let desc = format!("UTM zone {zone}{} on {} a={:?} b={:?}", if south { "S" } else { "N" }, e.id, e.a, e.b);
    let p = c.call("panic", || desc.clone(), || spec.applied_to(&e.e))?;
    c.cell(if south { "south zone" } else { "north zone" });
    Some(Tm { p, e, lon0: (zone as f64 * 6. - 183.) * D2R, lat0: 0., k0: 0.9996, fe: 500000., n0: if south { 1e7 } else { 0. }, fnorth: if south { 1e7 } else { 0. }, desc })
}

/// coefficients of n^5 of the Krueger series, from the position to the grid and back: the first
/// terms that the library's series, of order n^4, leave out
const NEXT: [[f64; 5]; 2] = [[127. / 288., 281. / 630., 15061. / 26880., 179. / 168., 34729. / 80640.], [81. / 512., 46. / 105., 209. / 4480., 11. / 504., 4583. / 161280.]];

/// accuracy claimed for the transverse Mercator (0: forward, 1: inverse) at an angular distance `d`
/// from the central meridian
fn tm_tol(t: &Tm, d: f64, way: usize) -> f64 {
    let n = (t.e.a - t.e.b) / (t.e.a + t.e.b);
    // next terms of the series, with a margin of a half
    let eta = d.sin().atanh();
    let mut s = 0.;
    for (j, k) in NEXT[way].iter().enumerate() {
        s += k * (2. * (j + 1) as f64 * eta).cosh();
    }
    if t.lat0 != 0. {
        // and those of the northing of the origin
        s += NEXT[0].iter().sum::<f64>();
    }
    let trunc = 1.5 * t.e.a * n.powi(5) * s;
    let round = 1e-14 * (t.e.a * 4. + t.fe.abs() + t.n0.abs()) / (FRAC_PI_2 - d).cos().min(1.).max(0.1);
    t.k0 * (trunc + round) + 1e-9
}

fn tm_position(c: &mut Case, t: &Tm, max_deg: f64) -> (f64, f64, f64) {
    // (lon, lat, angular distance from the meridian circle)
    loop {
        let la = lat(&mut c.rng);
        let dl = match c.rng.below(6) {
            0 => c.rng.log(1e-12, 0.1) * c.rng.sign(),
            1 => c.rng.range(-3.5, 3.5) * D2R,
            2 => c.rng.range(-PI, PI),
            3 => *c.rng.pick(&[0., FRAC_PI_2, -FRAC_PI_2, PI, -PI, 3. * D2R]),
            _ => c.rng.range(-max_deg, max_deg) * D2R,
        };
        let lo = oriented(0., t.lon0 + dl);
        let dl = oriented(t.lon0, lo);
        let beta = isometric(t.e.e2().sqrt(), la).sinh().atan();
        let d = (beta.cos() * dl.sin()).asin().abs();
        if d <= max_deg * D2R {
            return (lo, la, d);
        }
    }
}

fn tm_class(c: &mut Case, t: &Tm, lo: f64, la: f64, d: f64) {
    let dl = oriented(t.lon0, lo).abs();
    if dl > FRAC_PI_2 {
        c.cell("beyond 90 degrees, across a pole");
    }
    if la.abs() > 89.9 * D2R {
        c.cell("near a pole");
    }
    if d > 20. * D2R {
        c.cell("more than 20 degrees from the central meridian");
    } else if d < 4. * D2R {
        c.cell("near the central meridian");
    }
    c.cell(if la < 0. { "south" } else { "north" });
}

fn tm_fwd(c: &mut Case, t: &Tm, max: f64) {
    let (lo, la, d) = tm_position(c, t, max);
    let h = height(&mut c.rng);
    c.hs(&[t.e.a, t.e.b, t.lon0, t.k0, t.fe, t.n0, lo, la]);
    let ctx = format!("{}, lon {lo:?} lat {la:?} ({:.3} deg from the central meridian)", t.desc, d / D2R);
    let dl = oriented(t.lon0, lo);
    let (x, n) = tm_exact(t.e.a, t.e.b, la, dl);
    let (ee, en) = (t.fe + t.k0 * x, t.n0 + t.k0 * n);
    let Some(r) = c.call("panic", || ctx.clone(), || t.p.proj(llh(lo, la, h))) else { return };
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            c.violate("proj-error", format!("{ctx}: {e:?}"));
            return;
        }
    };
    let mut err = (r.easting.m() - ee).hypot(r.northing.m() - en);
    if la.abs() < 1e-15 && dl.abs() > FRAC_PI_2 {
        // the far half of the equator is reached over either pole
        err = err.min((r.easting.m() - ee).hypot(r.northing.m() - (t.n0 - t.k0 * n)));
        c.cell("far half of the equator");
    }
    if PI - dl.abs() < 1e-14 {
        err = err.min((r.easting.m() - (t.fe - t.k0 * x)).hypot(r.northing.m() - en));
    }
    c.metric("error (m)", err);
    if d < 5. * D2R {
        c.metric("error within 5 degrees (m)", err);
    }
    c.within(err, tm_tol(t, d, 0), "forward", || format!("{ctx} -> {r}, expected E {ee:?} N {en:?}"));
    c.check(r.height.m() == h, "height", || format!("{ctx}: height {:?}", r.height.m()));
    tm_class(c, t, lo, la, d);
    c.nontrivial();
    c.sample(|| format!("{ctx} -> {r}"));
}

fn tm_inv(c: &mut Case, t: &Tm, max: f64) {
    let (lo, la, d) = tm_position(c, t, max);
    let h = height(&mut c.rng);
    let dl = oriented(t.lon0, lo);
    let (x, n) = tm_exact(t.e.a, t.e.b, la, dl);
    let g = enh(t.fe + t.k0 * x, t.n0 + t.k0 * n, h);
    c.hs(&[t.e.a, t.e.b, t.lon0, t.k0, t.fe, t.n0, lo, la]);
    let ctx = format!("{}, {g} (= lon {lo:?} lat {la:?}, {:.3} deg from the central meridian)", t.desc, d / D2R);
    let exp = llh_to_xyz(t.e.a, t.e.b, lo, la, 0.);
    let tol = tm_tol(t, d, 1) / t.k0.min(1.);
    if let Some(r) = c.call("panic", || ctx.clone(), || t.p.unproj(g)) {
        match r {
            Err(e) => c.violate("unproj-error", format!("{ctx}: {e:?}")),
            Ok(b) => {
                let (blo, bla) = (b.lon.angle().rad(), b.lat.angle().rad());
                let err = dist(llh_to_xyz(t.e.a, t.e.b, blo, bla, 0.), exp);
                c.metric("error (m)", err);
                if d < 5. * D2R {
                    c.metric("error within 5 degrees (m)", err);
                }
    c.within(err, tol, "inverse", || format!("{ctx} -> lon {blo:?} lat {bla:?}"));
                c.check(blo.abs() <= PI && bla.abs() <= FRAC_PI_2, "inverse-range", || format!("{ctx} -> {b}"));
                c.check(b.height.m() == h, "height", || format!("{ctx} -> {b}"));
            }
        }
    }
    // round trip of the library with itself
    if let Some(Ok(r)) = c.call("panic", || ctx.clone(), || t.p.proj(llh(lo, la, h))) {
        if let Some(r2) = c.call("panic", || ctx.clone(), || t.p.unproj(r)) {
            match r2 {
                Err(e) => c.violate("unproj-error", format!("{ctx}: projected to {r}, unproj {e:?}")),
                Ok(b) => {
                    let (blo, bla) = (b.lon.angle().rad(), b.lat.angle().rad());
                    let err = dist(llh_to_xyz(t.e.a, t.e.b, blo, bla, 0.), exp);
                    c.within(err, tol + tm_tol(t, d, 0) / t.k0.min(1.), "roundtrip", || format!("{ctx} -> {r} -> lon {blo:?} lat {bla:?}"));
                    c.check(b.height.m() == h, "height", || format!("{ctx} -> {b}"));
                }
            }
        }
    }
    tm_class(c, t, lo, la, d);
    c.nontrivial();
    c.sample(|| ctx.clone());
}

/// the inverse, from a position chosen on the grid: the answer is projected exactly
fn tm_grid(c: &mut Case, t: &Tm) {
    let h = height(&mut c.rng);
    let quarter = t.k0 * meridian_arc(t.e.a, t.e.b, FRAC_PI_2);
    let (x, y) = grid(c, t.fe, 0.6 * t.k0 * t.e.b, t.fnorth, 2.9 * quarter);
    // the far half of the equator has two northings: keep away from it
    if (y - t.n0).abs() > 1.98 * quarter {
        return;
    }
    c.hs(&[t.e.a, t.e.b, t.lon0, t.k0, t.fe, t.n0, x, y]);
    c.nontrivial();
    let ctx = format!("{}, E {x:?} N {y:?}", t.desc);
    let Some(r) = c.call("panic", || ctx.clone(), || t.p.unproj(enh(x, y, h))) else { return };
    let b = match r {
        Err(e) => {
            c.violate("unproj-error", format!("{ctx}: {e:?}"));
            return;
        }
        Ok(b) => b,
    };
    let (lo, la) = (b.lon.angle().rad(), b.lat.angle().rad());
    c.check(lo.abs() <= PI && la.abs() <= FRAC_PI_2, "inverse-range", || format!("{ctx} -> {b}"));
    c.check(b.height.m() == h, "height", || format!("{ctx} -> {b}"));
    let dl = oriented(t.lon0, lo);
    let beta = isometric(t.e.e2().sqrt(), la).sinh().atan();
    let d = (beta.cos() * dl.sin()).asin().abs();
    if d > MAX_DEG * D2R {
        c.violate("inverse", format!("{ctx} -> {b}, {:.3} degrees from the central meridian", d / D2R));
        return;
    }
    let (ex, en) = tm_exact(t.e.a, t.e.b, la, dl);
    let (ee, en) = (t.fe + t.k0 * ex, t.n0 + t.k0 * en);
    // on the grid: the ground error times the scale
    let tol = tm_tol(t, d, 1) / t.k0.min(1.) * t.k0 * 1.1 / d.cos() + 1e-9;
    let err = (ee - x).hypot(en - y);
    c.metric("error on the grid (m)", err);
    c.within(err, tol, "inverse", || format!("{ctx} -> {b}, which is at E {ee:?} N {en:?}"));
    c.cell("chosen on the grid");
    c.sample(|| format!("{ctx} -> {b}"));
}
fn tm_grid_case(c: &mut Case) {
    let e = ell_earth(&mut c.rng);
    if let Some(t) = tm(c, e) {
        tm_grid(c, &t);
    }
}

const MAX_DEG: f64 = 40.;

fn tm_fwd_case(c: &mut Case) {
    let e = ell_earth(&mut c.rng);
    if let Some(t) = tm(c, e) {
        tm_fwd(c, &t, MAX_DEG);
    }
}
fn tm_fwd_flat(c: &mut Case) {
    let e = ell_flat(&mut c.rng);
    if let Some(t) = tm(c, e) {
        tm_fwd(c, &t, MAX_DEG);
    }
}
fn tm_inv_case(c: &mut Case) {
    let e = ell_earth(&mut c.rng);
    if let Some(t) = tm(c, e) {
        tm_inv(c, &t, MAX_DEG);
    }
}
fn tm_inv_flat(c: &mut Case) {
    let e = ell_flat(&mut c.rng);
    if let Some(t) = tm(c, e) {
        tm_inv(c, &t, MAX_DEG);
    }
}
fn utm_case(c: &mut Case) {
    if let Some(t) = utm(c) {
        c.hu(c.idx % 120);
        tm_fwd(c, &t, 8.);
        tm_inv(c, &t, 8.);
        tm_grid(c, &t);
        c.cell("utm");
    }
}

// ------------------------------------------------------------ totality

fn wild(c: &mut Case) -> f64 {
    match c.rng.below(8) {
        0 => any_finite(&mut c.rng),
        1 => *c.rng.pick(&[0., -0., f64::MAX, f64::MIN, 1e300, -1e300, 1e20, -1e20, 1e9, -1e9]),
        2 | 3 => c.rng.log(1e-6, 1e12) * c.rng.sign(),
        4 => c.rng.range(-3e8, 3e8),
        _ => c.rng.range(-2e7, 2e7),
    }
}

fn any_spec(c: &mut Case) -> (ProjectionSpec, String) {
    let lon0 = lon(&mut c.rng);
    let lat0 = lat(&mut c.rng).clamp(-89. * D2R, 89. * D2R);
    let (fe, fnn) = falses(c);
    let k0 = scale(c);
    let s = match c.rng.below(6) {
        0 => ProjectionSpec::Mercator1SP { lon0: mk_lon(lon0), k0, false_easting: fe * M, false_northing: fnn * M },
        1 => ProjectionSpec::Mercator2SP { lon0: mk_lon(lon0), lat0: mk_lat(lat0), false_easting: fe * M, false_northing: fnn * M },
        2 => ProjectionSpec::UTMNorth { zone: 1 + c.rng.below(60) as u8 },
        3 => ProjectionSpec::UTMSouth { zone: 1 + c.rng.below(60) as u8 },
        4 => ProjectionSpec::TransverseMercator { lon0: mk_lon(lon0), lat0: mk_lat(lat0), k0, false_easting: fe * M, false_northing: fnn * M },
        _ => ProjectionSpec::WebMercator { lon0: mk_lon(lon0), lat0: mk_lat(0.), false_easting: fe * M, false_northing: fnn * M },
    };
    (s, format!("{s:?}"))
}

fn total_case(c: &mut Case) {
    let e = ell_earth(&mut c.rng);
    let (s, desc) = any_spec(c);
    c.cell(match s {
        ProjectionSpec::Mercator1SP { .. } => "Mercator1SP",
        ProjectionSpec::Mercator2SP { .. } => "Mercator2SP",
        ProjectionSpec::UTMNorth { .. } => "UTMNorth",
        ProjectionSpec::UTMSouth { .. } => "UTMSouth",
        ProjectionSpec::TransverseMercator { .. } => "TransverseMercator",
        ProjectionSpec::WebMercator { .. } => "WebMercator",
    });
    let Some(p) = c.call("panic", || desc.clone(), || s.applied_to(&e.e)) else { return };
    // anywhere on the ellipsoid
    let (lo, la, h) = (lon(&mut c.rng), lat(&mut c.rng), height(&mut c.rng));
    c.hs(&[lo, la, e.a, e.b]);
    let ctx = format!("{desc} on {} a={:?} b={:?}, lon {lo:?} lat {la:?}", e.id, e.a, e.b);
    if let Some(r) = c.call("proj-panic", || ctx.clone(), || p.proj(llh(lo, la, h))) {
        match r {
            Ok(r) => {
                let ok = r.easting.m().is_finite() && r.northing.m().is_finite();
                c.check(ok, "proj-not-finite", || format!("{ctx}: Ok({r})"));
                c.check(r.height.m() == h, "height", || format!("{ctx}: Ok({r})"));
                c.cell("proj Ok");
            }
            Err(_) => {
                // the inside of every projection's domain is never refused
                let dl = oriented(
                    match s {
                        ProjectionSpec::UTMNorth { zone } | ProjectionSpec::UTMSouth { zone } => (zone as f64 * 6. - 183.) * D2R,
                        ProjectionSpec::Mercator1SP { lon0, .. } | ProjectionSpec::Mercator2SP { lon0, .. } | ProjectionSpec::WebMercator { lon0, .. } => lon0.angle().rad(),
                        ProjectionSpec::TransverseMercator { lon0, .. } => lon0.angle().rad(),
                    },
                    lo,
                );
                let tm = matches!(s, ProjectionSpec::UTMNorth { .. } | ProjectionSpec::UTMSouth { .. } | ProjectionSpec::TransverseMercator { .. });
                let inside = if tm { (la.cos() * dl.sin()).asin().abs() < 40. * D2R } else { la.abs() < 89.9 * D2R };
                c.check(!inside, "proj-refused", || format!("{ctx}: refused inside of the domain"));
                c.cell("proj Err");
            }
        }
    }
    // anywhere in the plane, and beyond
    // (the false origin of the projection)
    let (fe, fnn) = match s {
        ProjectionSpec::UTMNorth { .. } => (500000., 0.),
        ProjectionSpec::UTMSouth { .. } => (500000., 1e7),
        ProjectionSpec::Mercator1SP { false_easting, false_northing, .. }
        | ProjectionSpec::Mercator2SP { false_easting, false_northing, .. }
        | ProjectionSpec::TransverseMercator { false_easting, false_northing, .. }
        | ProjectionSpec::WebMercator { false_easting, false_northing, .. } => (false_easting.m(), false_northing.m()),
    };
    let (mut x, mut y) = (wild(c), wild(c));
    if c.rng.chance(1, 3) {
        (x, y) = (fe + c.rng.range(-5e6, 5e6), fnn + c.rng.range(-1e7, 1e7));
        c.cell("around the false origin");
    }
    c.hs(&[x, y]);
    let ctx = format!("{desc} on {} a={:?} b={:?}, E {x:?} N {y:?}", e.id, e.a, e.b);
    if x.abs().max(y.abs()) > 1e9 {
        c.cell("far out of the plane");
    }
    if let Some(r) = c.call("unproj-panic", || ctx.clone(), || p.unproj(enh(x, y, h))) {
        match r {
            Ok(r) => {
                let (lo, la) = (r.lon.angle().rad(), r.lat.angle().rad());
                c.check(lo.is_finite() && la.is_finite(), "unproj-not-finite", || format!("{ctx}: Ok({r})"));
                c.check(!(lo.abs() > PI || la.abs() > FRAC_PI_2), "unproj-range", || format!("{ctx}: Ok({r})"));
                c.cell("unproj Ok");
            }
            Err(_) => {
                let near = (x - fe).abs() < 3.9999e6 && (y - fnn).abs() < 8.9999e6;
                c.check(!near, "unproj-refused", || format!("{ctx}: refused inside of the plane"));
                c.cell("unproj Err");
            }
        }
    }
    c.nontrivial();
    c.sample(|| ctx.clone());
}

/// non-finite numbers must not hang or panic either
fn nonfinite_case(c: &mut Case) {
    let e = ell_earth(&mut c.rng);
    let (s, desc) = any_spec(c);
    let Some(p) = c.call("panic", || desc.clone(), || s.applied_to(&e.e)) else { return };
    let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let mut v = [wild(c), wild(c), wild(c)];
    let i = c.rng.usize(3);
    v[i] = *c.rng.pick(&bad);
    if c.rng.chance(1, 3) {
        let j = c.rng.usize(3);
        v[j] = *c.rng.pick(&bad);
    }
    c.hs(&v);
    let ctx = format!("{desc}: ENH {v:?}");
    c.call("unproj-panic", || ctx.clone(), || {
        let _ = p.unproj(enh(v[0], v[1], v[2]));
    });
    let (lo, la) = (lon(&mut c.rng), lat(&mut c.rng));
    c.call("proj-panic", || ctx.clone(), || {
        let _ = p.proj(llh(lo, la, v[2]));
    });
    c.cell("non-finite input");
    c.nontrivial();
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C09",
            rule: "Mercator 1SP and 2SP with random parameters on terrestrial ellipsoids: eastings/northings against the closed form (isometric latitude), inverse against a fixed-point solution, round trip",
            assumptions: &["|lat| <= 89.99 deg, standard parallel within 88 deg", "inverse series accurate to 3e-11 rad"],
            must_see: &["Mercator 1SP", "Mercator 2SP", "southern standard parallel", "sphere", "difference of longitudes across the antimeridian", "north", "south"],
            streams: vec![Stream { name: "mercator", quick: 300_000, thorough: 20_000_000, f: merc_case }, Stream { name: "flattened", quick: 100_000, thorough: 5_000_000, f: merc_flat }],
        },
        Property {
            id: "C10",
            rule: "Web Mercator: spherical closed form on the semi-major axis, both directions and round trip",
            assumptions: &["latitude of origin 0 (EPSG:1024)", "|lat| <= 89.99 deg"],
            must_see: &["web mercator", "difference of longitudes across the antimeridian", "north", "south"],
            streams: vec![Stream { name: "web-mercator", quick: 300_000, thorough: 20_000_000, f: web_case }],
        },
        Property {
            id: "C11",
            rule: "transverse Mercator grid coordinates against the exact projection (complex continuation of the meridian arc, Gauss-Legendre quadrature)",
            assumptions: &["within 40 degrees of the central meridian's great circle, terrestrial ellipsoids", "tolerance: 3 x the next term of the series + rounding"],
            must_see: &["near a pole", "beyond 90 degrees, across a pole", "near the central meridian", "more than 20 degrees from the central meridian", "origin off the equator", "origin at a pole", "sphere", "north", "south"],
            streams: vec![Stream { name: "tm-forward", quick: 100_000, thorough: 4_000_000, f: tm_fwd_case }, Stream { name: "flattened", quick: 30_000, thorough: 1_000_000, f: tm_fwd_flat }],
        },
        Property {
            id: "C12",
            rule: "inverse transverse Mercator of exact grid coordinates: distance in space to the original position; round trip",
            assumptions: &["within 40 degrees of the central meridian's great circle, terrestrial ellipsoids"],
            must_see: &["near a pole", "beyond 90 degrees, across a pole", "near the central meridian", "more than 20 degrees from the central meridian", "origin off the equator", "sphere", "north", "south", "chosen on the grid"],
            streams: vec![Stream { name: "tm-inverse", quick: 100_000, thorough: 4_000_000, f: tm_inv_case }, Stream { name: "grid", quick: 100_000, thorough: 4_000_000, f: tm_grid_case }, Stream { name: "flattened", quick: 30_000, thorough: 1_000_000, f: tm_inv_flat }],
        },
        Property {
            id: "C13",
            rule: "all 120 UTM zones against the exact projection with the published zone parameters",
            assumptions: &["within 8 degrees of the central meridian"],
            must_see: &["utm", "north zone", "south zone", "north", "south"],
            streams: vec![Stream { name: "utm", quick: 60_000, thorough: 2_400_000, f: utm_case }],
        },
        Property {
            id: "C14",
            rule: "every projection on every position of the ellipsoid and on any plane coordinates: returns (CPU watchdog), does not panic, finite Ok within range or Err",
            assumptions: &[],
            must_see: &["Mercator1SP", "Mercator2SP", "UTMNorth", "UTMSouth", "TransverseMercator", "WebMercator", "proj Ok", "unproj Ok", "far out of the plane", "around the false origin", "non-finite input"],
            streams: vec![
                Stream { name: "total", quick: 300_000, thorough: 20_000_000, f: total_case },
                Stream { name: "non-finite", quick: 50_000, thorough: 2_000_000, f: nonfinite_case },
            ],
        },
    ]
}
