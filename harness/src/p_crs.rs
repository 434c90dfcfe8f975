//! C18 distances in a CRS, C20 transformations as compositions, C21 round trips,
//! C22 translation and Helmert transformations (through the guarded hook).
use crate::dict::name;
use crate::gen::*;
use crate::geod::{self, El};
use crate::mon::*;
use crate::p_angle::circ;
use crate::p_axes::*;
use crate::p_conv::v3;
use crate::p_geod;
use crate::p_proj::{enh, llh};
use crate::vec3::*;
use geokit::crs::geocentric::GeocentricCrs;
use geokit::crs::geographic::GeographicCrs;
use geokit::crs::projected::ProjectedCrs;
use geokit::crs::Crs;
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::geodesy::GeodeticDatum;
use geokit::projections::ProjectionSpec;
use geokit::transformations::xyz::{CrsXYZTransformation, ToXYZ, ToXYZProvider, XYZIdentity, XYZTransformation};
use geokit::transformations::{CrsTransformation, TransformationError};
use geokit::units::length::M;
use std::cell::RefCell;
use std::f64::consts::{FRAC_PI_2, PI};
use std::rc::Rc;

// ------------------------------------------------------------ random CRS

#[derive(Clone)]
pub enum Kind {
    Geocentric(GeocentricCrs),
    Geographic(GeographicCrs, GeoSpec),
    Projected(ProjectedCrs, ProjSpec),
}
#[derive(Clone)]
pub struct AnyCrs {
    pub kind: Kind,
    pub ell: Ell,
    /// longitude of the prime meridian
    pub pm: f64,
}

/// projection usable around a point (longitude in the CRS' own prime meridian)
pub fn spec_around(c: &mut Case, lo: f64, la: f64) -> ProjectionSpec {
    let r = &mut c.rng;
    let (fe, fnn) = match r.below(3) {
        0 => (0., 0.),
        1 => (500000., 1e7),
        _ => (r.range(-1e6, 1e6), r.range(-1e6, 1e6)),
    };
    let k0 = *r.pick(&[1., 0.9996, 0.9999, 1.0003]);
    let near = mk_lon(lo + r.range(-5., 5.) * D2R);
    let far = mk_lon(lo + r.range(-150., 150.) * D2R);
    let lat0 = mk_lat(la + r.range(-10., 10.) * D2R);
    match r.below(6) {
        0 => ProjectionSpec::Mercator1SP { lon0: far, k0, false_easting: fe * M, false_northing: fnn * M },
        1 => ProjectionSpec::Mercator2SP { lon0: far, lat0: mk_lat(r.range(0., 60.) * D2R), false_easting: fe * M, false_northing: fnn * M },
        2 | 3 => {
            // the zone that contains the point, or one next to it
            let z = ((lo / D2R + 180.) / 6.).floor() as i64 + r.below(3) as i64 - 1;
            let zone = (z.rem_euclid(60) + 1) as u8;
            if r.chance(1, 2) {
                ProjectionSpec::UTMNorth { zone }
            } else {
                ProjectionSpec::UTMSouth { zone }
            }
        }
        4 => ProjectionSpec::TransverseMercator { lon0: near, lat0, k0, false_easting: fe * M, false_northing: fnn * M },
        _ => ProjectionSpec::WebMercator { lon0: far, lat0: mk_lat(0.), false_easting: fe * M, false_northing: fnn * M },
    }
}

/// A CRS usable around a point given by its Greenwich longitude and latitude.
pub fn crs_around(c: &mut Case, glon: f64, la: f64) -> AnyCrs {
    let ell = ell_earth(&mut c.rng);
    let pm = pm_any(&mut c.rng);
    let d = datum(&ell, &pm);
    let plon = pm.lon;
    let kind = match c.rng.below(4) {
        0 => Kind::Geocentric(GeocentricCrs { id: name(glon, "geocentric").into(), datum: d, axes: GeocentricAxes::XYZ }),
        1 => {
            let s = any_geo_spec(c);
            Kind::Geographic(GeographicCrs { id: name(glon, "geographic").into(), datum: d, axes: s.axes }, s)
        }
        _ => {
            let s = any_proj_spec(c);
            let projection = spec_around(c, mk_lon(glon - plon).angle().rad(), la);
            Kind::Projected(ProjectedCrs { id: name(glon, "projected").into(), datum: d, axes: s.axes, projection }, s)
        }
    };
    AnyCrs { kind, ell, pm: plon }
}

impl AnyCrs {
    pub fn crs(&self) -> &dyn Crs {
        match &self.kind {
            Kind::Geocentric(k) => k,
            Kind::Geographic(k, _) => k,
            Kind::Projected(k, _) => k,
        }
    }
    pub fn dim(&self) -> usize {
        match &self.kind {
            Kind::Geocentric(_) => 3,
            Kind::Geographic(_, s) => s.dim,
            Kind::Projected(_, s) => s.dim,
        }
    }
    pub fn desc(&self) -> String {
        match &self.kind {
            Kind::Geocentric(_) => format!("geocentric(pm={:?})", self.pm),
            Kind::Geographic(_, s) => format!("geographic({} {:?} rad {:?} m, a={:?} b={:?} pm={:?})", s.name, s.au, s.hu, self.ell.a, self.ell.b, self.pm),
            Kind::Projected(k, s) => format!(
                "projected({} {:?} m {:?} m, {:?}, a={:?} b={:?} pm={:?})",
                s.name, s.hz, s.hu, k.projection, self.ell.a, self.ell.b, self.pm
            ),
        }
    }
    fn datum(&self) -> &GeodeticDatum {
        match &self.kind {
            Kind::Geocentric(k) => &k.datum,
            Kind::Geographic(k, _) => &k.datum,
            Kind::Projected(k, _) => &k.datum,
        }
    }
    /// coordinates -> normalized geocentric, out of the public building blocks
    pub fn to_xyz(&self, co: &[f64]) -> Option<V3> {
        match &self.kind {
            Kind::Geocentric(_) => Some([co[0], co[1], co[2]]),
            Kind::Geographic(_, s) => {
                let p = llh(co[s.ilon] * s.slon * s.au, co[s.ilat] * s.au, if s.dim == 3 { co[2] * s.hu } else { 0. });
                Some(v3(self.datum().llh_to_xyz(p)))
            }
            Kind::Projected(k, s) => {
                let e = enh(co[0] * s.hz, co[1] * s.hz, if s.dim == 3 { co[2] * s.hu } else { 0. });
                let p = k.projection.applied_to(&self.ell.e).unproj(e).ok()?;
                Some(v3(self.datum().llh_to_xyz(p)))
            }
        }
    }
    /// normalized geocentric -> coordinates, out of the public building blocks
    pub fn from_xyz(&self, x: V3) -> Option<Vec<f64>> {
        match &self.kind {
            Kind::Geocentric(_) => Some(x.to_vec()),
            Kind::Geographic(_, s) => {
                let p = self.datum().xyz_to_llh(xyz(x));
                let mut v = vec![0.; s.dim];
                v[s.ilon] = p.lon.angle().rad() * s.slon / s.au;
                v[s.ilat] = p.lat.angle().rad() / s.au;
                if s.dim == 3 {
                    v[2] = p.height.m() / s.hu;
                }
                Some(v)
            }
            Kind::Projected(k, s) => {
                let p = self.datum().xyz_to_llh(xyz(x));
                let e = k.projection.applied_to(&self.ell.e).proj(p).ok()?;
                let mut v = vec![e.easting.m() / s.hz, e.northing.m() / s.hz];
                if s.dim == 3 {
                    v.push(e.height.m() / s.hu);
                }
                Some(v)
            }
        }
    }
    /// difference between two coordinates of this CRS at a place, in metres
    pub fn gap(&self, u: &[f64], v: &[f64]) -> f64 {
        match &self.kind {
            Kind::Geocentric(_) => dist([u[0], u[1], u[2]], [v[0], v[1], v[2]]),
            Kind::Geographic(_, s) => {
                let la = u[s.ilat] * s.au;
                let r = self.ell.a + if s.dim == 3 { (u[2] * s.hu).abs() } else { 0. };
                let x = circ(u[s.ilon] * s.au, v[s.ilon] * s.au) * la.cos().abs() * r;
                let y = (u[s.ilat] - v[s.ilat]) * s.au * r;
                let z = if s.dim == 3 { (u[2] - v[2]) * s.hu } else { 0. };
                norm([x, y, z])
            }
            Kind::Projected(_, s) => {
                let z = if s.dim == 3 { (u[2] - v[2]) * s.hu } else { 0. };
                norm([(u[0] - v[0]) * s.hz, (u[1] - v[1]) * s.hz, z])
            }
        }
    }
}
pub fn xyz(v: V3) -> XYZ {
    XYZ { x: v[0] * M, y: v[1] * M, z: v[2] * M }
}
impl ToXYZProvider for AnyCrs {
    fn to_xyz_transformation<'a>(&self) -> Box<dyn ToXYZ + 'a> {
        match &self.kind {
            Kind::Geocentric(k) => k.to_xyz_transformation(),
            Kind::Geographic(k, _) => k.to_xyz_transformation(),
            Kind::Projected(k, _) => k.to_xyz_transformation(),
        }
    }
}

// ------------------------------------------------------------ C18 distances

fn c18_cartesian(c: &mut Case) {
    let g = [lon(&mut c.rng), lat(&mut c.rng)];
    let k = crs_around(c, g[0], g[1]);
    let n = k.dim();
    let scale = match c.rng.below(4) {
        0 => 1e-3,
        1 => 1e3,
        _ => 7e6,
    };
    let mut a: Vec<f64> = (0..n).map(|_| c.rng.range(-1., 1.) * scale).collect();
    let mut b: Vec<f64> = (0..n).map(|_| c.rng.range(-1., 1.) * scale).collect();
    let f: Vec<f64> = match &k.kind {
        Kind::Geocentric(_) => vec![1.; 3],
        Kind::Projected(_, s) => vec![s.hz, s.hz, s.hu],
        Kind::Geographic(..) => return,
    };
    match c.rng.below(6) {
        0 => {
            b = a.clone();
            c.cell("coincident");
        }
        1 => {
            let i = c.rng.usize(n);
            let t = a[i];
            a = b.clone();
            a[i] = t;
            c.cell("along one axis");
        }
        _ => {}
    }
    c.hs(&a);
    c.hs(&b);
    c.hs(&f);
    c.nontrivial();
    c.cell(if matches!(k.kind, Kind::Geocentric(_)) { "geocentric" } else if n == 2 { "projected 2D" } else { "projected 3D" });
    let e = (0..n).map(|i| ((a[i] - b[i]) * f[i]).powi(2)).sum::<f64>().sqrt();
    // an Euclidean distance is exact up to rounding of the coordinates
    let mag = (0..n).map(|i| (a[i].abs() + b[i].abs()) * f[i]).fold(0., f64::max);
    let tol = 8. * f64::EPSILON * mag + 1e-300;
    let what = || format!("dist in {} between {a:?} and {b:?}", k.desc());
    for (u, v) in [(&a, &b), (&b, &a)] {
        let Some(d) = c.call("panic", what, || k.crs().dist(u, v)) else { return };
        match d {
            Ok(d) => {
                c.within((d.m() - e).abs(), tol, "cartesian", || format!("{}: {:?} m, expected {e:?}", what(), d.m()));
            }
            Err(m) => c.violate("cartesian-err", format!("{}: Err({m})", what())),
        }
    }
    c.sample(what);
}

fn c18_geographic(c: &mut Case) {
    let ell = ell_earth(&mut c.rng);
    let pm = pm_any(&mut c.rng);
    let s = any_geo_spec(c);
    let k = GeographicCrs { id: "g".into(), datum: datum(&ell, &pm), axes: s.axes };
    let el = El { a: ell.a, b: ell.b };
    let (l1, p1) = (lon(&mut c.rng), lat(&mut c.rng));
    let (mut l2, mut p2) = (lon(&mut c.rng), lat(&mut c.rng));
    match c.rng.below(6) {
        0 => {
            (l2, p2) = (l1, p1);
            c.cell("coincident");
        }
        1 => {
            let d = c.rng.log(1e-10, 1e-2);
            l2 = (l1 + d * c.rng.range(-1., 1.)).clamp(-PI, PI);
            p2 = (p1 + d * c.rng.range(-1., 1.)).clamp(-FRAC_PI_2, FRAC_PI_2);
            c.cell("close");
        }
        2 => {
            l2 = if l1 > 0. { l1 - 2. * PI + 0.001 } else { l1 + 2. * PI - 0.001 }.clamp(-4., 4.);
            c.cell("across the antimeridian");
        }
        _ => {}
    }
    let (h1, h2) = (height(&mut c.rng).clamp(-1e5, 1e7), height(&mut c.rng).clamp(-1e5, 1e7));
    let mk = |lo: f64, la: f64, h: f64| {
        let mut v = vec![0.; s.dim];
        v[s.ilon] = lo * s.slon / s.au;
        v[s.ilat] = la / s.au;
        if s.dim == 3 {
            v[2] = h / s.hu;
        }
        v
    };
    let (a, b) = (mk(l1, p1, h1), mk(l2, p2, h2));
    c.hs(&a);
    c.hs(&b);
    c.hs(&[ell.a, ell.b, s.au, s.hu]);
    c.nontrivial();
    let back = |v: &[f64]| {
        (v[s.ilon] * s.slon * s.au, (v[s.ilat] * s.au).clamp(-FRAC_PI_2, FRAC_PI_2), if s.dim == 3 { v[2] * s.hu } else { 0. })
    };
    let (q1, q2) = (back(&a), back(&b));
    let what = || format!("dist in geographic {} ({:?} rad, {:?} m) on a={:?} b={:?} between {a:?} and {b:?}", s.name, s.au, s.hu, ell.a, ell.b);
    c.sample(what);
    if s.dim == 3 {
        c.cell("geographic 3D");
        let e = dist(llh_to_xyz(ell.a, ell.b, q1.0, q1.1, q1.2), llh_to_xyz(ell.a, ell.b, q2.0, q2.1, q2.2));
        for (u, v) in [(&a, &b), (&b, &a)] {
            let Some(d) = c.call("panic", what, || k.dist(u, v)) else { return };
            match d {
                Ok(d) => {
                    c.within((d.m() - e).abs(), 1e-7, "geographic-3d", || format!("{}: {:?} m, the straight line measures {e:?}", what(), d.m()));
                }
                Err(m) => c.violate("geographic-3d-err", format!("{}: Err({m})", what())),
            }
        }
    } else {
        c.cell("geographic 2D");
        let (e, arc) = geod::distance(el, q1.0, q1.1, q2.0, q2.1);
        let tol = p_geod::tol(0, ell.a, ell.f());
        for (u, v) in [(&a, &b), (&b, &a)] {
            let Some(d) = c.call("panic", what, || k.dist(u, v)) else { return };
            match d {
                Ok(d) => {
                    c.within((d.m() - e).abs(), tol, "geographic-2d", || format!("{}: {:?} m, the geodesic measures {e:?}", what(), d.m()));
                }
                Err(m) => {
                    c.cell("no solution near the antipode");
                    c.check(arc > 175. * D2R, "geographic-2d-err", || format!("{}: Err({m}), the geodesic measures {e:?}", what()));
                }
            }
        }
    }
}

// ------------------------------------------------------------ C20, C21 transformations

type Log = Rc<RefCell<Vec<(u8, bool, V3, V3)>>>;
/// A user supplied datum shift that records how it is used: a rotation, a scale and a translation.
#[derive(Clone)]
struct Recorder {
    id: u8,
    log: Log,
    t: V3,
    cs: (f64, f64),
    k: f64,
}
impl Recorder {
    fn fwd(&self, v: V3) -> V3 {
        let (c, s) = self.cs;
        [self.k * (c * v[0] - s * v[1]) + self.t[0], self.k * (s * v[0] + c * v[1]) + self.t[1], self.k * v[2] + self.t[2]]
    }
    fn bwd(&self, w: V3) -> V3 {
        let (c, s) = self.cs;
        let v = [(w[0] - self.t[0]) / self.k, (w[1] - self.t[1]) / self.k, (w[2] - self.t[2]) / self.k];
        [c * v[0] + s * v[1], c * v[1] - s * v[0], v[2]]
    }
}
impl XYZTransformation for Recorder {
    fn to_ref(&self, src: XYZ) -> XYZ {
        let i = v3(src);
        let o = self.fwd(i);
        self.log.borrow_mut().push((self.id, true, i, o));
        xyz(o)
    }
    fn from_ref(&self, dst: XYZ) -> XYZ {
        let i = v3(dst);
        let o = self.bwd(i);
        self.log.borrow_mut().push((self.id, false, i, o));
        xyz(o)
    }
}
fn recorder(c: &mut Case, id: u8, log: &Log, small: bool) -> Recorder {
    let z = if small { 1. } else { 50. };
    let t = match c.rng.below(4) {
        0 => [0.; 3],
        _ => [c.rng.range(-200., 200.) * z, c.rng.range(-200., 200.) * z, c.rng.range(-200., 200.) * z],
    };
    let r = c.rng.range(-1e-5, 1e-5) * z;
    Recorder { id, log: log.clone(), t, cs: (r.cos(), r.sin()), k: 1. + c.rng.range(-1e-5, 1e-5) }
}

const MARK: f64 = -7.7e77;

/// Ground point: Greenwich longitude, latitude, height
fn ground(c: &mut Case) -> (f64, f64, f64) {
    let l = lon(&mut c.rng);
    let p = lat(&mut c.rng).clamp(-84. * D2R, 84. * D2R);
    let h = if c.rng.chance(1, 3) { 0. } else { c.rng.range(-1000., 9000.) };
    (l, p, h)
}

fn pair_cell(c: &mut Case, s: &AnyCrs, d: &AnyCrs) {
    let n = |k: &AnyCrs| match k.kind {
        Kind::Geocentric(_) => 0,
        Kind::Geographic(..) => 1,
        Kind::Projected(..) => 2,
    };
    c.cell(
        [
            ["geocentric->geocentric", "geocentric->geographic", "geocentric->projected"],
            ["geographic->geocentric", "geographic->geographic", "geographic->projected"],
            ["projected->geocentric", "projected->geographic", "projected->projected"],
        ][n(s)][n(d)],
    );
}

fn c20_compose(c: &mut Case) {
    let (gl, la, h) = ground(c);
    let s = crs_around(c, gl, la);
    // sometimes a destination that is not meant for this place
    let wrong = c.rng.chance(1, 8);
    let d = if wrong {
        let (o, p) = (lon(&mut c.rng), lat(&mut c.rng));
        crs_around(c, o, p)
    } else {
        crs_around(c, gl, la)
    };
    pair_cell(c, &s, &d);
    let log: Log = Rc::new(RefCell::new(vec![]));
    let (rs, rd) = (recorder(c, 1, &log, false), recorder(c, 2, &log, false));
    let desc = format!("transformation from {} to {}", s.desc(), d.desc());
    let Some(t) = c.call("panic", || desc.clone(), || CrsXYZTransformation::new(s.clone(), d.clone(), rs.clone(), rd.clone())) else { return };
    let x0 = llh_to_xyz(s.ell.a, s.ell.b, gl, la, h);
    // out of the domain of a projection
    let pole = if c.rng.chance(1, 12) { Some([0., 0., -s.ell.b]) } else { None };
    // both directions: (start CRS, its recorder, end CRS, its recorder, forward?)
    for fwd in [true, false] {
        let (a, ra, b, rb) = if fwd { (&s, &rs, &d, &rd) } else { (&d, &rd, &s, &rs) };
        let start = if fwd { pole.unwrap_or(x0) } else { rd.bwd(rs.fwd(pole.unwrap_or(x0))) };
        let Some(mut co) = a.from_xyz(start) else { continue };
        if c.rng.chance(1, 20) {
            // far out of the plane
            if let Kind::Projected(..) = a.kind {
                co[0] = c.rng.log(1e9, 1e300);
                co[1] = c.rng.log(1e9, 1e300);
                c.cell("unreachable input");
            }
        }
        c.hs(&co);
        c.nontrivial();
        let what = || format!("{desc}: {} of {co:?}", if fwd { "fwd" } else { "bwd" });
        c.sample(what);
        let longer = c.rng.usize(3);
        let mut out = vec![MARK; b.dim() + longer];
        // whatever the buffer contained
        match c.rng.below(6) {
            0 => out[..b.dim()].fill(0.),
            1 => out[..b.dim()].fill(f64::NAN),
            2 | 3 => {
                let n = b.dim().min(co.len());
                out[..n].copy_from_slice(&co[..n]);
                c.cell("buffer full of the input");
            }
            _ => {}
        }
        let mut input = co.clone();
        if c.rng.chance(1, 4) {
            // nothing beyond the dimension is read
            c.cell("longer input");
            for _ in 0..1 + c.rng.usize(2) {
                input.push(*c.rng.pick(&[f64::NAN, MARK, 0.]));
            }
        }
        log.borrow_mut().clear();
        let Some(r) = c.call("panic", what, || if fwd { t.fwd(&input, &mut out) } else { t.bwd(&input, &mut out) }) else { continue };
        c.check(out[b.dim()..].iter().all(|v| *v == MARK), "beyond", || format!("{}: wrote {:?} beyond the {} coordinates of the destination", what(), &out[b.dim()..], b.dim()));
        out.truncate(b.dim());
        let l = log.borrow().clone();
        // specification: the composition of the public building blocks
        let e_in = a.to_xyz(&co);
        let e_ref = e_in.map(|v| ra.fwd(v));
        let e_dst = e_ref.map(|v| rb.bwd(v));
        let e_out = e_dst.and_then(|v| b.from_xyz(v));
        if e_in.map(|v| !norm(v).is_finite()).unwrap_or(false) {
            continue;
        }
        match (&r, &e_out) {
            (Err(_), None) => {
                c.cell("refused");
                c.rec.evals += 1;
            }
            (Ok(()), None) => c.violate("accepted", format!("{}: Ok({out:?}) although one of the two projections refuses the point", what())),
            (Err(e), Some(_)) => c.violate("refused", format!("{}: Err({e}) although both CRS contain the point", what())),
            (Ok(()), Some(x)) => {
                c.cell(if fwd { "forward" } else { "backward" });
                let ok = l.len() == 2 && l[0].0 == ra.id && l[0].1 && l[1].0 == rb.id && !l[1].1;
                c.check(ok, "order", || format!("{}: the datum shifts were used as {:?}", what(), l.iter().map(|e| (e.0, if e.1 { "to_ref" } else { "from_ref" })).collect::<Vec<_>>()));
                if ok {
                    let q = e_in.unwrap();
                    let tol = 1e-9 * (1. + norm(q) * 1e-3);
                    c.within(dist(l[0].2, q), tol, "to-ref-input", || format!("{}: to_ref was given {:?}, expected {q:?}", what(), l[0].2));
                    c.within(dist(l[1].2, l[0].3), tol, "from-ref-input", || format!("{}: from_ref was given {:?}, expected {:?}", what(), l[1].2, l[0].3));
                }
                let g = b.gap(&out, x);
                // far from the centre of a projection the map stretches
                let big = x.iter().zip(&out).map(|(u, v)| (u - v).abs() / (1. + u.abs())).fold(0., f64::max);
                c.check(g <= 1e-6 || big <= 1e-11, "result", || format!("{}: {out:?}, the steps one by one give {x:?}", what()));
            }
        }
    }
}

/// A CRS implemented by a user of the library: it records what it is given, and may refuse.
#[derive(Clone)]
struct UserCrs {
    id: u8,
    log: Rc<RefCell<Vec<(u8, &'static str, V3)>>>,
    f: V3,
    refuse: (bool, bool),
}
impl ToXYZ for UserCrs {
    fn to_xyz(&self, co: &[f64]) -> Result<XYZ, TransformationError> {
        let v = [co[0] * self.f[0], co[1] * self.f[1], co[2] * self.f[2]];
        self.log.borrow_mut().push((self.id, "to_xyz", v));
        if self.refuse.0 { Err(TransformationError::OutOfBounds) } else { Ok(xyz(v)) }
    }
    fn from_xyz(&self, p: XYZ, co: &mut [f64]) -> Result<(), TransformationError> {
        let v = v3(p);
        self.log.borrow_mut().push((self.id, "from_xyz", v));
        if self.refuse.1 {
            return Err(TransformationError::OutOfBounds);
        }
        (0..3).for_each(|i| co[i] = v[i] / self.f[i]);
        Ok(())
    }
}
impl ToXYZProvider for UserCrs {
    fn to_xyz_transformation<'a>(&self) -> Box<dyn ToXYZ + 'a> {
        Box::new(self.clone())
    }
}
/// A datum shift that itself calls the library before it answers.
struct Nested {
    id: u8,
    log: Rc<RefCell<Vec<(u8, &'static str, V3)>>>,
    t: V3,
    inner: Option<(Rc<CrsXYZTransformation<'static>>, Vec<f64>)>,
    seen: Rc<RefCell<Vec<Vec<u64>>>>,
}
impl Nested {
    fn nest(&self, fwd: bool) {
        if let Some((t, co)) = &self.inner {
            let mut o = vec![0.; 3];
            let r = if fwd { t.fwd(co, &mut o) } else { t.bwd(co, &mut o) };
            if r.is_ok() {
                self.seen.borrow_mut().push(o.iter().map(|x| x.to_bits()).collect());
            }
        }
    }
}
impl XYZTransformation for Nested {
    fn to_ref(&self, p: XYZ) -> XYZ {
        let v = v3(p);
        self.nest(true);
        self.log.borrow_mut().push((self.id, "to_ref", v));
        xyz([v[0] + self.t[0], v[1] + self.t[1], v[2] + self.t[2]])
    }
    fn from_ref(&self, p: XYZ) -> XYZ {
        let v = v3(p);
        self.nest(true);
        self.log.borrow_mut().push((self.id, "from_ref", v));
        xyz([v[0] - self.t[0], v[1] - self.t[1], v[2] - self.t[2]])
    }
}

/// All four steps are the user's: the trace is known to the last bit.
fn c20_user(c: &mut Case) {
    let log = Rc::new(RefCell::new(vec![]));
    let seen = Rc::new(RefCell::new(vec![]));
    let f = |c: &mut Case| [c.rng.range(0.5, 2.), c.rng.range(0.5, 2.), c.rng.range(0.5, 2.)];
    let t = |c: &mut Case| [c.rng.range(-300., 300.), c.rng.range(-300., 300.), c.rng.range(-300., 300.)];
    let odd = c.rng.usize(12);
    let mk = |c: &mut Case, id: u8| UserCrs { id, log: log.clone(), f: f(c), refuse: (odd == 2 * id as usize, odd == 2 * id as usize + 1) };
    let (us, ud) = (mk(c, 0), mk(c, 1));
    // what the shifts do meanwhile: another transformation, of the library's own CRS
    let inner = if c.rng.chance(1, 2) {
        let (gl, la, h) = ground(c);
        let (a, b) = (crs_around(c, gl, la), crs_around(c, gl, la));
        a.from_xyz(llh_to_xyz(a.ell.a, a.ell.b, gl, la, h)).map(|mut co| {
            co.resize(3, 0.);
            (Rc::new(CrsXYZTransformation::new(a, b, XYZIdentity, XYZIdentity)), co)
        })
    } else {
        None
    };
    let nested = inner.is_some();
    let alone = inner.as_ref().and_then(|(t, co)| {
        let mut o = vec![0.; 3];
        t.fwd(co, &mut o).ok().map(|_| o.iter().map(|x| x.to_bits()).collect::<Vec<_>>())
    });
    let (ts, td) = (t(c), t(c));
    let shift = |id: u8, t: V3| Nested { id, log: log.clone(), t, inner: inner.clone(), seen: seen.clone() };
    let co: Vec<f64> = (0..3).map(|_| c.rng.range(-7e6, 7e6)).collect();
    c.hs(&co);
    c.hu(odd as u64);
    c.nontrivial();
    let tr = CrsXYZTransformation::new(us.clone(), ud.clone(), shift(2, ts), shift(3, td));
    for fwd in [true, false] {
        let what = || format!("transformation between two CRS of the user (factors {:?} and {:?}, shifts {ts:?} and {td:?}), refusing {odd}, nested calls {nested}: {} of {co:?}", us.f, ud.f, if fwd { "fwd" } else { "bwd" });
        let (a, ia, ta, b, ib, tb) = if fwd { (&us, 2u8, ts, &ud, 3u8, td) } else { (&ud, 3, td, &us, 2, ts) };
        let x1 = [co[0] * a.f[0], co[1] * a.f[1], co[2] * a.f[2]];
        let x2 = [x1[0] + ta[0], x1[1] + ta[1], x1[2] + ta[2]];
        let x3 = [x2[0] - tb[0], x2[1] - tb[1], x2[2] - tb[2]];
        let e_out = [x3[0] / b.f[0], x3[1] / b.f[1], x3[2] / b.f[2]];
        let mut trace = vec![(a.id, "to_xyz", x1)];
        if !a.refuse.0 {
            trace.extend([(ia, "to_ref", x1), (ib, "from_ref", x2), (b.id, "from_xyz", x3)]);
        }
        log.borrow_mut().clear();
        seen.borrow_mut().clear();
        let mut out = vec![MARK; 5];
        let Some(r) = c.call("user-panic", what, || if fwd { tr.fwd(&co, &mut out) } else { tr.bwd(&co, &mut out) }) else { return };
        let l = log.borrow().clone();
        c.check(l == trace, "user-trace", || format!("{}: steps {l:?}, expected {trace:?}", what()));
        let refused = a.refuse.0 || b.refuse.1;
        c.check(r.is_err() == refused, "user-refused", || format!("{}: {:?}", what(), r.is_ok()));
        c.cell(if refused { "refused by the user's CRS" } else { "user's CRS" });
        if !refused && r.is_ok() {
            c.check(out[..3] == e_out && out[3] == MARK && out[4] == MARK, "user-result", || format!("{}: {out:?}, expected {e_out:?}", what()));
        }
        if let Some(x) = &alone {
            let s = seen.borrow();
            if !a.refuse.0 {
                c.cell("nested calls");
                c.check(s.len() == 2 && s.iter().all(|v| v == x), "nested", || format!("{}: the nested calls differ from the same call alone", what()));
            }
        }
    }
}

fn c20_identity(c: &mut Case) {
    // same CRS on both sides, no datum shift
    let (gl, la, h) = ground(c);
    let s = crs_around(c, gl, la);
    let x0 = llh_to_xyz(s.ell.a, s.ell.b, gl, la, if s.dim() == 2 { 0. } else { h });
    let Some(co) = s.from_xyz(x0) else { return };
    c.hs(&co);
    c.nontrivial();
    let t = CrsXYZTransformation::new(s.clone(), s.clone(), XYZIdentity, XYZIdentity);
    let what = || format!("identity of {} at {co:?}", s.desc());
    for fwd in [true, false] {
        let mut out = vec![MARK; s.dim()];
        match c.call("panic", what, || if fwd { t.fwd(&co, &mut out) } else { t.bwd(&co, &mut out) }) {
            Some(Ok(())) => {
                c.cell("identity");
                let g = s.gap(&co, &out);
                c.within(g, 1e-3, "identity", || format!("{}: {out:?}", what()));
            }
            Some(Err(e)) => c.violate("identity-err", format!("{}: Err({e})", what())),
            None => {}
        }
    }
}

fn c21_roundtrip(c: &mut Case) {
    let (gl, la, h) = ground(c);
    let s = crs_around(c, gl, la);
    let mut d = crs_around(c, gl, la);
    let mut tries = 0;
    while d.dim() == 2 && tries < 20 {
        d = crs_around(c, gl, la);
        tries += 1;
    }
    if d.dim() == 2 {
        return;
    }
    pair_cell(c, &s, &d);
    let log: Log = Rc::new(RefCell::new(vec![]));
    let (rs, rd) = (recorder(c, 1, &log, true), recorder(c, 2, &log, true));
    let t = CrsXYZTransformation::new(s.clone(), d.clone(), rs.clone(), rd.clone());
    let x0 = llh_to_xyz(s.ell.a, s.ell.b, gl, la, if s.dim() == 2 { 0. } else { h });
    let Some(co) = s.from_xyz(x0) else { return };
    c.hs(&co);
    c.nontrivial();
    let what = || format!("round trip of {co:?} from {} to {}", s.desc(), d.desc());
    c.sample(what);
    let mut there = vec![MARK; 3];
    let mut back = vec![MARK; s.dim()];
    let mut again = vec![MARK; 3];
    let Some(r) = c.call("panic", what, || {
        t.fwd(&co, &mut there)?;
        t.bwd(&there, &mut back)?;
        t.fwd(&back, &mut again)
    }) else {
        return;
    };
    if let Err(e) = r {
        c.violate("roundtrip-err", format!("{}: Err({e})", what()));
        return;
    }
    let g = s.gap(&co, &back);
    c.within(g, 1e-3, "roundtrip", || format!("{}: there {there:?}, back {back:?}", what()));
    // the ground position is the same one
    if let (Some(p), Some(q)) = (s.to_xyz(&co), s.to_xyz(&back)) {
        c.within(dist(p, q), 1e-3, "ground", || format!("{}: there {there:?}, back {back:?} moved on the ground", what()));
    }
    let g = d.gap(&there, &again);
    c.within(g, 3e-3, "again", || format!("{}: there {there:?}, there again {again:?}", what()));
    c.cell(if s.dim() == 2 { "from 2D" } else { "from 3D" });
}

// ------------------------------------------------------------ C22 datum shifts (hook)

#[cfg(feature = "hooks")]
mod shifts {
    use super::*;
    use geokit::quantities::scale::PPM;
    use geokit::transformations::xyz::verif::*;
    use geokit::transformations::xyz::RotationConvention;
    use geokit::units::angle::RAD;

    fn place(c: &mut Case) -> V3 {
        let (gl, la, h) = (lon(&mut c.rng), lat(&mut c.rng), height(&mut c.rng).clamp(-6e6, 4e7));
        match c.rng.below(6) {
            0 => [c.rng.range(-1e7, 1e7), c.rng.range(-1e7, 1e7), c.rng.range(-1e7, 1e7)],
            1 => *c.rng.pick(&[[0.; 3], [6378137., 0., 0.], [0., 6378137., 0.], [0., 0., 6356752.]]),
            _ => llh_to_xyz(6378137., 6356752.314, gl, la, h),
        }
    }

    pub fn translation(c: &mut Case) {
        let t = [c.rng.range(-1000., 1000.), c.rng.range(-1000., 1000.), c.rng.range(-1000., 1000.)];
        let p = place(c);
        c.hs(&t);
        c.hs(&p);
        c.nontrivial();
        let what = || format!("geocentric translation {t:?} of {p:?}");
        c.sample(what);
        let Some((a, b, d)) = c.call("panic", what, || {
            let k = geocentric_translation(t[0] * M, t[1] * M, t[2] * M);
            (v3(k.to_ref(xyz(p))), v3(k.from_ref(xyz(p))), v3(k.from_ref(k.to_ref(xyz(p)))))
        }) else {
            return;
        };
        c.cell("translation");
        for i in 0..3 {
            let tol = 2. * f64::EPSILON * (p[i].abs() + t[i].abs()) + 1e-300;
            c.within((a[i] - (p[i] + t[i])).abs(), tol, "translation-to", || format!("{}: {a:?}", what()));
            c.within((b[i] - (p[i] - t[i])).abs(), tol, "translation-from", || format!("{}: {b:?}", what()));
            c.within((d[i] - p[i]).abs(), 2. * tol, "translation-roundtrip", || format!("{}: there and back {d:?}", what()));
        }
    }

    pub fn helmert(c: &mut Case) {
        let z = match c.rng.below(4) {
            0 => 0.,
            1 => 1e-4,
            _ => 3e-5,
        };
        let r = [c.rng.range(-z, z + 1e-300), c.rng.range(-z, z + 1e-300), c.rng.range(-z, z + 1e-300)];
        let mut r = r;
        if c.rng.chance(1, 3) {
            let i = c.rng.usize(3);
            for (j, v) in r.iter_mut().enumerate() {
                if i != j {
                    *v = 0.;
                }
            }
            c.cell("single rotation");
        }
        let t = if c.rng.chance(1, 4) { [0.; 3] } else { [c.rng.range(-1000., 1000.), c.rng.range(-1000., 1000.), c.rng.range(-1000., 1000.)] };
        let ppm = match c.rng.below(8) {
            0 | 1 => 0.,
            2 => c.rng.range(-1000., 1000.),
            _ => c.rng.range(-50., 50.),
        };
        let p = place(c);
        let pv = c.rng.chance(1, 2);
        c.hs(&r);
        c.hs(&t);
        c.hs(&p);
        c.h(ppm);
        c.nontrivial();
        c.cell(if pv { "position vector" } else { "coordinate frame" });
        let what = || format!("Helmert {} rotations {r:?} translation {t:?} {ppm:?} ppm of {p:?}", if pv { "position vector" } else { "coordinate frame" });
        c.sample(what);
        let conv = |pv: bool| if pv { RotationConvention::PositionVector } else { RotationConvention::CoordinateFrame };
        let mk = |pv: bool, r: V3, t: V3, ppm: f64| helmert_7_params(conv(pv), [r[0] * RAD, r[1] * RAD, r[2] * RAD], [t[0] * M, t[1] * M, t[2] * M], PPM(ppm));
        let Some((a, b, rt)) = c.call("panic", what, || {
            let k = mk(pv, r, t, ppm);
            let a = k.to_ref(xyz(p));
            (v3(a), v3(k.from_ref(xyz(p))), v3(k.from_ref(a)))
        }) else {
            return;
        };
        // EPSG 1033 (position vector) / 1032 (coordinate frame)
        let s = if pv { 1. } else { -1. };
        let m = 1. + ppm * 1e-6;
        let cross = |r: V3, p: V3| [r[1] * p[2] - r[2] * p[1], r[2] * p[0] - r[0] * p[2], r[0] * p[1] - r[1] * p[0]];
        let apply = |s: f64, m: f64, t: V3| {
            let q = cross(r, p);
            [m * (p[0] + s * q[0]) + t[0], m * (p[1] + s * q[1]) + t[1], m * (p[2] + s * q[2]) + t[2]]
        };
        let e = apply(s, m, t);
        let mag = norm(p) + norm(t);
        let rtol = 1e-14 * mag + 1e-12;
        c.within(dist(a, e), rtol, "helmert-to", || format!("{}: {a:?}, expected {e:?}", what()));
        // the inverse, to second order in the parameters
        let rn = norm(r);
        let pp = (ppm * 1e-6).abs();
        let second = 3. * (rn + pp) * (rn + pp) * mag + 3. * (rn + pp) * norm(t);
        let e = apply(-s, 1. - ppm * 1e-6, [-t[0], -t[1], -t[2]]);
        c.within(dist(b, e), rtol + second, "helmert-from", || format!("{}: from_ref gives {b:?}, expected {e:?}", what()));
        c.within(dist(rt, p), rtol + second, "helmert-roundtrip", || format!("{}: there and back {rt:?}", what()));
        // the two conventions are opposite
        if let Some(o) = c.call("panic", what, || v3(mk(!pv, [-r[0], -r[1], -r[2]], t, ppm).to_ref(xyz(p)))) {
            c.within(dist(o, a), rtol, "helmert-conventions", || format!("{}: {a:?}, opposite rotations with the other convention {o:?}", what()));
        }
        if rn == 0. && ppm == 0. {
            c.cell("pure translation");
        }
    }

    /// in a full transformation
    pub fn in_crs(c: &mut Case) {
        let (gl, la, h) = ground(c);
        let s = crs_around(c, gl, la);
        let d = crs_around(c, gl, la);
        let t = [c.rng.range(-300., 300.), c.rng.range(-300., 300.), c.rng.range(-300., 300.)];
        let r = [c.rng.range(-2e-5, 2e-5), c.rng.range(-2e-5, 2e-5), c.rng.range(-2e-5, 2e-5)];
        let ppm = c.rng.range(-20., 20.);
        struct B(Box<dyn XYZTransformation>);
        impl XYZTransformation for B {
            fn to_ref(&self, v: XYZ) -> XYZ {
                self.0.to_ref(v)
            }
            fn from_ref(&self, v: XYZ) -> XYZ {
                self.0.from_ref(v)
            }
        }
        let k = CrsXYZTransformation::new(
            s.clone(),
            d.clone(),
            B(geocentric_translation(t[0] * M, t[1] * M, t[2] * M)),
            B(helmert_7_params(RotationConvention::PositionVector, [r[0] * RAD, r[1] * RAD, r[2] * RAD], [0. * M; 3], PPM(ppm))),
        );
        let x0 = llh_to_xyz(s.ell.a, s.ell.b, gl, la, if s.dim() == 2 { 0. } else { h });
        let Some(co) = s.from_xyz(x0) else { return };
        let Some(p) = s.to_xyz(&co) else { return };
        let q = add(p, t);
        // exact inverse of the small rotation and scale, by iteration
        let m = 1. + ppm * 1e-6;
        let mut w = q;
        for _ in 0..20 {
            let x = [r[1] * w[2] - r[2] * w[1], r[2] * w[0] - r[0] * w[2], r[0] * w[1] - r[1] * w[0]];
            w = [q[0] / m - x[0], q[1] / m - x[1], q[2] / m - x[2]];
        }
        let Some(e) = d.from_xyz(w) else { return };
        let what = || format!("transformation of {co:?} from {} to {} with translation {t:?} and rotations {r:?} {ppm:?} ppm", s.desc(), d.desc());
        let mut out = vec![MARK; d.dim()];
        c.hs(&co);
        c.hs(&t);
        c.nontrivial();
        match c.call("panic", what, || k.fwd(&co, &mut out)) {
            Some(Ok(())) => {
                c.cell("in a CRS transformation");
                let g = d.gap(&out, &e);
                // second order terms of the shift, stretched by the projection
                c.within(g, 1.0, "in-crs", || format!("{}: {out:?}, expected {e:?}", what()));
            }
            Some(Err(e)) => c.violate("in-crs-err", format!("{}: Err({e})", what())),
            None => {}
        }
    }
    fn add(a: V3, b: V3) -> V3 {
        [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
    }
}

pub fn props() -> Vec<Property> {
    #[allow(unused_mut)]
    let mut v = vec![
        Property {
            id: "C18",
            rule: "Crs::dist against the Euclidean distance in metres (geocentric, projected), the straight line in space (geographic 3D) and the geodesic length by quadrature (geographic 2D), both ways",
            assumptions: &["coordinates with the dimension of the CRS", "ellipsoids of terrestrial size with a flattening of at most 1/190"],
            must_see: &["geocentric", "projected 2D", "projected 3D", "geographic 2D", "geographic 3D", "coincident", "close", "across the antimeridian"],
            streams: vec![
                Stream { name: "cartesian", quick: 200000, thorough: 10000000, f: c18_cartesian },
                Stream { name: "geographic", quick: 200000, thorough: 6000000, f: c18_geographic },
            ],
        },
        Property {
            id: "C20",
            rule: "trace specification over recording datum shifts: fwd = src.to_ref then dst.from_ref, bwd = dst.to_ref then src.from_ref, each fed with the previous step's output; end to end result equals the public building blocks applied one by one; refused exactly when a projection refuses; with CRS and shifts of the user (some refusing, some calling the library meanwhile) the trace is exact",
            assumptions: &["ellipsoids of terrestrial size", "ground points between 84S and 84N"],
            must_see: &["geocentric->geocentric", "geocentric->geographic", "geocentric->projected", "geographic->geocentric", "geographic->geographic", "geographic->projected", "projected->geocentric", "projected->geographic", "projected->projected", "forward", "backward", "refused", "identity", "longer input", "user's CRS", "refused by the user's CRS", "nested calls"],
            streams: vec![
                Stream { name: "compose", quick: 150000, thorough: 6000000, f: c20_compose },
                Stream { name: "identity", quick: 60000, thorough: 2000000, f: c20_identity },
                Stream { name: "user", quick: 60000, thorough: 2000000, f: c20_user },
            ],
        },
        Property {
            id: "C21",
            rule: "bwd(fwd(c)) is c to a millimetre on the ground and in the coordinates of every source CRS, for every CRS pair with a 3D destination, exact inverse datum shifts",
            assumptions: &["the point lies in the usual domain of both projections (within 5 degrees of the central meridian for transverse Mercator, 84S to 84N)", "destination CRS with a height"],
            must_see: &["geocentric->geocentric", "geocentric->geographic", "geocentric->projected", "geographic->geocentric", "geographic->geographic", "geographic->projected", "projected->geocentric", "projected->geographic", "projected->projected", "from 2D", "from 3D"],
            streams: vec![Stream { name: "roundtrip", quick: 150000, thorough: 6000000, f: c21_roundtrip }],
        },
    ];
    #[cfg(feature = "hooks")]
    v.push(Property {
        id: "C22",
        rule: "translation and Helmert 7-parameter transformations against the EPSG 1031/1032/1033 formulas, first-order inverse to second order in the parameters, both rotation conventions opposite",
        assumptions: &["rotations up to 1e-4 rad, scale up to 1000 ppm, translations up to 1 km"],
        must_see: &["translation", "position vector", "coordinate frame", "single rotation", "in a CRS transformation"],
        streams: vec![
            Stream { name: "translation", quick: 200000, thorough: 10000000, f: shifts::translation },
            Stream { name: "helmert", quick: 200000, thorough: 10000000, f: shifts::helmert },
            Stream { name: "in-crs", quick: 60000, thorough: 2000000, f: shifts::in_crs },
        ],
    });
    v
}
