//! C23 line strings, C24 curves and points.
use crate::gen::*;
use crate::mon::*;
use crate::p_crs::*;
use geokit::crs::Crs;
use geokit::geometry::coordinate::curve::line_string::{LineString, LineStringBuilder};
use geokit::geometry::coordinate::curve::{CurveInterpolation, CurveSegment, ParameterizedCurve};
use geokit::geometry::primitive::curve::{CurveBoundary, CurveBuilder};
use geokit::geometry::primitive::point::Point;
use geokit::geometry::{Geometry, GeometryType};
use geokit::quantities::length::Length;
use geokit::units::length::M;
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;

type P = Vec<f64>;

/// Control positions in a CRS, in a family chosen at random.
fn positions(c: &mut Case, k: &AnyCrs, n: usize, start: Option<P>) -> Vec<P> {
    let dim = k.dim();
    // size of a "unit" on each axis
    let unit: Vec<f64> = match &k.kind {
        Kind::Geographic(_, s) => {
            let mut v = vec![0.; dim];
            v[s.ilon] = 0.3 / s.au;
            v[s.ilat] = 0.3 / s.au;
            if dim == 3 {
                v[2] = 1000.;
            }
            v
        }
        _ => vec![1e5; dim],
    };
    let fam = c.rng.below(6);
    c.cell(["random walk", "decimal grid", "axis aligned", "straight", "mixed magnitudes", "scattered"][fam as usize]);
    let grid = *c.rng.pick(&[0.1, 0.3, 0.7, 1. / 3., 1e-3]);
    let dir: Vec<f64> = (0..dim).map(|_| c.rng.range(-1., 1.)).collect();
    let mut cur: P = start.unwrap_or_else(|| {
        (0..dim)
            .map(|i| match fam {
                1 => grid * (c.rng.below(7) as f64 - 3.),
                _ => unit[i] * c.rng.range(-1., 1.),
            })
            .collect()
    });
    let mut out = vec![cur.clone()];
    let geo = matches!(k.kind, Kind::Geographic(..));
    while out.len() < n {
        let mut nx = cur.clone();
        if c.rng.chance(1, 10) {
            // a repeated position
            c.cell("zero length segment");
        } else if c.rng.chance(1, 12) && out.len() > 2 {
            nx = out[c.rng.usize(out.len())].clone();
        } else {
            match fam {
                0 => (0..dim).for_each(|i| nx[i] += unit[i] * c.rng.range(-1., 1.) * 0.1),
                1 => {
                    let i = c.rng.usize(dim);
                    nx[i] += grid * c.rng.sign() * (1. + c.rng.below(3) as f64);
                }
                2 => {
                    let i = c.rng.usize(dim);
                    nx[i] += unit[i] * 0.1 * c.rng.range(-1., 1.);
                }
                3 => {
                    let t = c.rng.range(0., 0.05);
                    (0..dim).for_each(|i| nx[i] += t * unit[i] * dir[i]);
                }
                4 => {
                    let m = c.rng.log(1e-9, 0.3);
                    (0..dim).for_each(|i| nx[i] += m * unit[i] * c.rng.range(-1., 1.));
                }
                _ => (0..dim).for_each(|i| nx[i] = unit[i] * c.rng.range(-1., 1.)),
            }
        }
        if geo {
            // keep to latitudes where lat and lon make sense
            (0..dim).for_each(|i| nx[i] = nx[i].clamp(-5. * unit[i], 5. * unit[i]));
        }
        cur = nx.clone();
        out.push(nx);
    }
    if geo && c.rng.chance(1, 4) {
        // the same meridian written in two ways, as a zero length segment at one end
        if let Kind::Geographic(_, s) = &k.kind {
            let half = std::f64::consts::PI / s.au;
            if (half * s.au).abs() <= std::f64::consts::PI {
                let l = out.len();
                out[l - 2][s.ilon] = half;
                out[l - 1] = out[l - 2].clone();
                out[l - 1][s.ilon] = -half;
                c.cell("antimeridian written in two ways");
            }
        }
    }
    out
}

fn cell_kind(c: &mut Case, k: &AnyCrs) {
    c.cell(match (&k.kind, k.dim()) {
        (Kind::Geocentric(_), _) => "geocentric",
        (Kind::Geographic(..), 2) => "geographic 2D",
        (Kind::Geographic(..), _) => "geographic 3D",
        (Kind::Projected(..), 2) => "projected 2D",
        _ => "projected 3D",
    });
}

/// Builds a line string; None if the CRS cannot measure one of the segments (already checked).
fn build(c: &mut Case, k: &AnyCrs, ps: &[P], close: bool) -> Option<(LineString, Vec<P>, Vec<f64>)> {
    let crs = k.crs();
    let mut ps = ps.to_vec();
    let what = || format!("line string of {} positions in {}", ps.len(), k.desc());
    let mut all = ps.clone();
    if close {
        all.push(ps[0].clone());
    }
    let mut lens = vec![];
    let mut bad = false;
    for w in all.windows(2) {
        match crs.dist(&w[0], &w[1]) {
            Ok(l) => lens.push(l.m()),
            Err(_) => {
                bad = true;
                break;
            }
        }
    }
    let r = c.call("build-panic", what, || -> Result<LineString, &'static str> {
        let mut b = LineStringBuilder::with_line(crs, &ps[0], &ps[1])?;
        for p in &ps[2..] {
            b = b.line_to(p)?;
        }
        if close {
            b.close()
        } else {
            Ok(b.build())
        }
    })?;
    match r {
        Ok(l) => {
            if bad {
                let w = what();
                c.violate("build", format!("{w}: built although the CRS cannot measure one of its segments"));
                return None;
            }
            ps = all;
            Some((l, ps, lens))
        }
        Err(e) => {
            c.cell("segment without a length");
            c.check(bad, "build", || format!("{}: Err({e})", what()));
            None
        }
    }
}

/// Is `got` the position at length `s` along the control positions?
fn on_curve(ps: &[P], lens: &[f64], s: f64, got: &[f64]) -> bool {
    let total: f64 = lens.iter().sum();
    let eps = 4e-16 * (lens.len() + 4) as f64 * total + 1e-300;
    let mut cum = 0.;
    for (i, l) in lens.iter().enumerate() {
        if s >= cum - eps && s <= cum + l + eps {
            let (a, b) = (&ps[i], &ps[i + 1]);
            let (t0, t1) = if *l <= 0. {
                (0., 1.)
            } else {
                (((s - eps - cum) / l).clamp(0., 1.), ((s + eps - cum) / l).clamp(0., 1.))
            };
            let ok = got.len() == a.len()
                && (0..a.len()).all(|j| {
                    let (x0, x1) = (a[j] + (b[j] - a[j]) * t0, a[j] + (b[j] - a[j]) * t1);
                    let r = 1e-14 * a[j].abs().max(b[j].abs());
                    got[j] >= x0.min(x1) - r && got[j] <= x0.max(x1) + r
                });
            if ok {
                return true;
            }
        }
        cum += l;
    }
    false
}

/// lengths at which to look at a curve of the given segments
fn probes(c: &mut Case, lens: &[f64], len: f64) -> Vec<f64> {
    let mut v = vec![0., len];
    let mut cum = 0.;
    for l in lens {
        let t = c.rng.f();
        v.push(cum + t * l);
        cum += l;
        v.push(cum);
        v.push(cum.next_up());
        v.push(cum.next_down());
    }
    for _ in 0..4 {
        v.push(c.rng.f() * len);
    }
    v.push(len.next_down());
    v.push(len * 0.5);
    v.push(f64::MIN_POSITIVE);
    v.retain(|s| *s >= 0. && *s <= len);
    v
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
fn eq(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y)
}

fn n_of(c: &mut Case) -> usize {
    if let Some(n) = crate::dict::size(&mut c.rng, 3000) {
        return n.max(2);
    }
    if c.rng.chance(1, 60) {
        c.cell("hundreds of positions");
        return 100 + c.rng.usize(500);
    }
    match c.rng.below(4) {
        0 => 2,
        1 => 2 + c.rng.usize(3),
        2 => 2 + c.rng.usize(10),
        _ => 2 + c.rng.usize(60),
    }
}

fn c23_line(c: &mut Case) {
    let (gl, la) = (lon(&mut c.rng), lat(&mut c.rng).clamp(-1.4, 1.4));
    let k = crs_around(c, gl, la);
    cell_kind(c, &k);
    let n = n_of(c);
    let ps = positions(c, &k, n, None);
    let close = c.rng.chance(1, 3);
    let Some((ls, ps, lens)) = build(c, &k, &ps, close) else { return };
    for p in &ps {
        c.hs(p);
    }
    c.nontrivial();
    let crs = k.crs();
    let what = || format!("line string of {} positions {:?}... in {}", ps.len(), &ps[..ps.len().min(4)], k.desc());
    c.sample(what);
    let Some((dim, st, en, len, b)) = c.call("panic", what, || (ls.coord_dim(), ls.start().to_vec(), ls.end().to_vec(), ls.length(crs).m(), ls.curve_boundary())) else { return };
    c.check(dim == k.dim(), "dim", || format!("{}: dimension {dim}", what()));
    c.check(bits(&st) == bits(&ps[0]), "start", || format!("{}: starts at {st:?}", what()));
    c.check(bits(&en) == bits(&ps[ps.len() - 1]), "end", || format!("{}: ends at {en:?}, not {:?}", what(), ps[ps.len() - 1]));
    if close {
        c.cell("closed");
        c.check(eq(&en, &st), "close", || format!("{}: closed, starts at {st:?} and ends at {en:?}", what()));
    }
    c.check(eq(&b.start, &st) && eq(&b.end, &en), "boundary", || format!("{}: boundary {b:?}", what()));
    c.check(matches!(ls.interpolation(), CurveInterpolation::Linear), "linear", || format!("{}: not linear", what()));
    let total: f64 = lens.iter().sum();
    c.within((len - total).abs(), 1e-13 * total + 1e-300, "length", || format!("{}: length {len:?}, its segments measure {total:?}", what()));
    for s in probes(c, &lens, len) {
        let w = || format!("{}: param({s:?} m) of {len:?} m, segments {:?}", what(), lens);
        let Some(p) = c.call("param-panic", w, || ls.param(crs, s * M)) else { return };
        if len > 0. && s == 0. {
            c.cell("at the start");
            c.check(eq(&p, &st), "param-start", || format!("{}: {p:?} is not the start {st:?}", w()));
        }
        if len > 0. && s == len {
            c.cell("at the end");
            c.check(eq(&p, &en), "param-end", || format!("{}: {p:?} is not the end {en:?}", w()));
        }
        c.check(on_curve(&ps, &lens, s, &p), "param", || format!("{}: {p:?} is not there on the line, positions {ps:?}", w()));
    }
    // beyond the end there is nothing
    for s in [len * 1.001 + 1e-3, len.next_up(), len + 1e-6, 2. * len + 1., 1e30, f64::INFINITY] {
        let r = guard(|| ls.param(crs, s * M));
        c.check(r.is_err() || s == len, "beyond", || format!("{}: param({s:?} m), beyond the length {len:?} m, gives {r:?}", what()));
    }
}

/// A CRS implemented by a user of the library, with its own idea of distance.
#[derive(Debug)]
struct UserCrs {
    id: String,
    dim: usize,
    how: u64,
    w: [f64; 3],
}
impl Crs for UserCrs {
    fn id(&self) -> &str {
        &self.id
    }
    fn dim(&self) -> usize {
        self.dim
    }
    fn dist(&self, a: &[f64], b: &[f64]) -> Result<Length, &'static str> {
        let d = |i: usize| (a[i] - b[i]).abs() * self.w[i];
        let l = match self.how {
            // city blocks
            0 => (0..self.dim).map(d).sum(),
            // largest difference
            1 => (0..self.dim).map(d).fold(0., f64::max),
            // snowflake
            2 => (0..self.dim).map(d).sum::<f64>().sqrt(),
            // same or not
            3 => (a != b) as u64 as f64 * self.w[0],
            // one axis does not count
            4 => d(0),
            // goes up only
            _ => {
                if b[0] < a[0] {
                    return Err("not that way");
                }
                (0..self.dim).map(d).sum()
            }
        };
        Ok(l * M)
    }
}

fn c23_user(c: &mut Case) {
    let dim = 2 + c.rng.usize(2);
    let k = UserCrs {
        id: c.rng.pick(&["WGS84", "", "user", "EPSG:4326"]).to_string(),
        dim,
        how: c.rng.below(6),
        w: [c.rng.log(1e-3, 1e3), c.rng.log(1e-3, 1e3), c.rng.log(1e-3, 1e3)],
    };
    let n = n_of(c);
    let mut ps: Vec<P> = vec![];
    for i in 0..n {
        if i > 0 && c.rng.chance(1, 8) {
            ps.push(ps[i - 1].clone());
        } else {
            ps.push((0..dim).map(|_| c.rng.range(-1e3, 1e3)).collect());
        }
    }
    if k.how == 5 && c.rng.chance(3, 4) {
        ps.sort_by(|a, b| a.partial_cmp(b).unwrap());
    }
    let close = c.rng.chance(1, 4);
    let mut all = ps.clone();
    if close {
        all.push(ps[0].clone());
    }
    for p in &all {
        c.hs(p);
    }
    c.nontrivial();
    let lens: Result<Vec<f64>, _> = all.windows(2).map(|w| k.dist(&w[0], &w[1]).map(|l| l.m())).collect();
    let what = || format!("line string of {} positions {:?}... in {k:?}", all.len(), &all[..all.len().min(4)]);
    let Some(r) = c.call("user-panic", what, || -> Result<LineString, &'static str> {
        let b = ps[2..].iter().try_fold(LineStringBuilder::with_line(&k, &ps[0], &ps[1])?, |b, p| b.line_to(p))?;
        if close { b.close() } else { Ok(b.build()) }
    }) else {
        return;
    };
    let (ls, lens) = match (r, lens) {
        (Ok(l), Ok(v)) => (l, v),
        (Err(_), Err(_)) => {
            c.cell("refused by the user's CRS");
            c.rec.evals += 1;
            return;
        }
        (r, l) => {
            c.violate("user-build", format!("{}: {:?}, distances {l:?}", what(), r.is_ok()));
            return;
        }
    };
    c.cell("user's CRS");
    let Some((st, en, len)) = c.call("user-panic", what, || (ls.start().to_vec(), ls.end().to_vec(), ls.length(&k).m())) else { return };
    c.check(ls.coord_dim() == dim && bits(&st) == bits(&all[0]) && bits(&en) == bits(&all[all.len() - 1]), "user-ends", || format!("{}: from {st:?} to {en:?}", what()));
    let total: f64 = lens.iter().sum();
    c.within((len - total).abs(), 1e-13 * total + 1e-300, "user-length", || format!("{}: length {len:?}, its segments measure {total:?}", what()));
    for s in probes(c, &lens, len) {
        let w = || format!("{}: param({s:?} m) of {len:?} m, segments {:?}", what(), lens);
        let Some(p) = c.call("user-param-panic", w, || ls.param(&k, s * M)) else { return };
        c.check(on_curve(&all, &lens, s, &p), "user-param", || format!("{}: {p:?} is not there on the line, positions {all:?}", w()));
    }
    // equal exactly when they go through the same positions
    let mut ps2 = ps.clone();
    let i = c.rng.usize(ps2.len());
    let j = c.rng.usize(dim);
    ps2[i][j] = if c.rng.chance(1, 2) { ps2[i][j].next_up() } else { ps2[i][j] + 1. };
    let mk = |v: &[P]| v[2..].iter().try_fold(LineStringBuilder::with_line(&k, &v[0], &v[1]).ok()?, |b, p| b.line_to(p).ok()).map(|b| b.build());
    if let (Some(x), Some(y), Some(z)) = (mk(&ps), mk(&ps), mk(&ps2)) {
        c.cell("compared");
        c.check(x == y && x == x.clone(), "user-eq", || format!("{}: differs from the same line", what()));
        c.check(x != z && z != x, "user-eq", || format!("{}: equals the line through {:?} instead of {:?}", what(), ps2[i], ps[i]));
    }
}

fn c23_dims(c: &mut Case) {
    let k = crs_around(c, 0.1, 0.5);
    let d = k.dim();
    let n = n_of(c);
    let ps = positions(c, &k, n, None);
    let wrong = *c.rng.pick(&[0usize, 1, 2, 3, 4, 6]);
    if wrong == d {
        return;
    }
    c.hs(&ps[0]);
    c.hs(&ps[1]);
    c.hu(wrong as u64);
    c.nontrivial();
    let crs = k.crs();
    if crs.dist(&ps[0], &ps[1]).is_err() {
        return;
    }
    let p = vec![0.25; wrong];
    let what = || format!("line_to with {wrong} coordinates in {}", k.desc());
    let Some(r) = c.call("dim-panic", what, || LineStringBuilder::with_line(crs, &ps[0], &ps[1]).and_then(|b| b.line_to(&p)).map(|b| b.build())) else { return };
    c.cell("wrong dimension");
    c.check(r.is_err(), "dim-accepted", || format!("{}: accepted: {r:?}", what()));
}

/// as_line_string(max_distance): same ends, control positions close enough
fn c23_approx(c: &mut Case) {
    let k = crs_around(c, 0.1, 0.5);
    let n = n_of(c);
    let ps = positions(c, &k, n, None);
    let Some((ls, _, lens)) = build(c, &k, &ps, false) else { return };
    for p in &ps {
        c.hs(p);
    }
    c.nontrivial();
    approx(c, &k, &ls, lens.iter().sum(), "line string");
}
fn approx(c: &mut Case, k: &AnyCrs, ls: &dyn ParameterizedCurve, total: f64, kind: &str) {
    let crs = k.crs();
    let dmax = (total > 0.).then(|| total * c.rng.range(0.05, 2.) * M);
    match guard(|| ls.as_line_string(crs, dmax, None)) {
        Err(m) if m.contains("not yet implemented") => c.violate("as-line-string-unimplemented", format!("as_line_string of a {kind} in {}: panicked: {m}", k.desc())),
        Err(m) => c.violate("as-line-string-panic", format!("as_line_string of a {kind} in {}: panicked: {m}", k.desc())),
        Ok(a) => {
            c.check(eq(a.start(), ls.start()) && eq(a.end(), ls.end()), "as-line-string", || format!("as_line_string of a {kind}: {:?}..{:?} becomes {:?}..{:?}", ls.start(), ls.end(), a.start(), a.end()));
        }
    }
}

// ------------------------------------------------------------ C24

/// A segment implemented by a user of the library: it records the lengths it is asked for.
#[derive(Clone, Debug)]
struct Probe {
    inner: LineString,
    asked: Rc<RefCell<Vec<(usize, f64, f64)>>>,
    id: usize,
}
impl ParameterizedCurve for Probe {
    fn coord_dim(&self) -> usize {
        self.inner.coord_dim()
    }
    fn start(&self) -> &[f64] {
        self.inner.start()
    }
    fn end(&self) -> &[f64] {
        self.inner.end()
    }
    fn length(&self, crs: &dyn Crs) -> Length {
        self.inner.length(crs)
    }
    fn param(&self, crs: &dyn Crs, s: Length) -> Box<[f64]> {
        self.asked.borrow_mut().push((self.id, s.m(), self.length(crs).m()));
        self.inner.param(crs, s)
    }
    fn as_line_string(&self, _: &dyn Crs, _: Option<Length>, _: Option<Length>) -> LineString {
        self.inner.clone()
    }
}
impl CurveSegment for Probe {
    fn interpolation(&self) -> CurveInterpolation {
        CurveInterpolation::Geodesic
    }
    fn curve_boundary(&self) -> CurveBoundary {
        self.inner.curve_boundary()
    }
}

fn c24_curve(c: &mut Case) {
    let (gl, la) = (lon(&mut c.rng), lat(&mut c.rng).clamp(-1.4, 1.4));
    let k = crs_around(c, gl, la);
    cell_kind(c, &k);
    let crs = k.crs();
    let asked = Rc::new(RefCell::new(vec![]));
    let most = if c.rng.chance(1, 60) { 300 } else if c.rng.chance(1, 3) { 20 } else { 5 };
    let nseg = crate::dict::size(&mut c.rng, 400).unwrap_or_else(|| 1 + c.rng.usize(most));
    let mut all: Vec<P> = vec![];
    let mut lens: Vec<f64> = vec![];
    let mut ends: Vec<f64> = vec![];
    let mut segs: Vec<(LineString, bool)> = vec![];
    let loops = c.rng.chance(1, 4);
    for i in 0..nseg {
        let n = 2 + c.rng.usize(5);
        let mut ps = positions(c, &k, n, all.last().cloned());
        if let Some(l) = all.last() {
            ps[0] = l.clone(); // whatever the family did to the first position
        }
        if loops && i + 1 == nseg && i > 0 {
            ps[n - 1] = all[0].clone();
        }
        let close = loops && nseg == 1;
        let Some((ls, ps, l)) = build(c, &k, &ps, close) else { return };
        if all.is_empty() {
            all.push(ps[0].clone());
        }
        all.extend(ps[1..].iter().cloned());
        lens.extend(&l);
        ends.push(l.iter().sum());
        let p = c.rng.chance(1, 2);
        segs.push((ls, p));
    }
    for p in &all {
        c.hs(p);
    }
    c.hu(nseg as u64);
    c.nontrivial();
    let what = || format!("curve of {nseg} segments through {} positions {:?}... in {}", all.len(), &all[..all.len().min(4)], k.desc());
    c.sample(what);
    let Some(r) = c.call("build-panic", what, || {
        let mk = |i: usize| Probe { inner: segs[i].0.clone(), asked: asked.clone(), id: i };
        let mut b = if segs[0].1 { CurveBuilder::with_seg(crs, mk(0))? } else { CurveBuilder::with_seg(crs, segs[0].0.clone())? };
        for i in 1..segs.len() {
            b = if segs[i].1 { b.append_segment(mk(i))? } else { b.append_segment(segs[i].0.clone())? };
        }
        Ok::<_, &'static str>(b.build())
    }) else {
        return;
    };
    let cv = match r {
        Ok(v) => v,
        Err(e) => {
            c.violate("build", format!("{}: Err({e})", what()));
            return;
        }
    };
    c.cell(if nseg == 1 { "one segment" } else { "several segments" });
    let (st, en) = (&all[0], &all[all.len() - 1]);
    let Some((dim, s0, e0, len, cyc, bd, ty)) = c.call("panic", what, || (cv.coord_dim(), cv.start().to_vec(), cv.end().to_vec(), cv.length(crs).m(), cv.is_cycle(), cv.boundary(), cv.geometry_type())) else { return };
    c.check(dim == k.dim() && ty == GeometryType::Curve(k.dim()), "dim", || format!("{}: dimension {dim}, type {ty:?}", what()));
    c.check(eq(&s0, st), "start", || format!("{}: starts at {s0:?}", what()));
    c.check(eq(&e0, en), "end", || format!("{}: ends at {e0:?}", what()));
    let cycle = eq(st, en);
    c.cell(if cycle { "cycle" } else { "open" });
    c.check(cyc == cycle, "cycle", || format!("{}: is_cycle() {cyc}, from {st:?} to {en:?}", what()));
    match bd {
        None => {
            c.check(cycle, "boundary", || format!("{}: no boundary, from {st:?} to {en:?}", what()));
        }
        Some(b) => {
            let a: Box<dyn Any> = b;
            let b = a.downcast_ref::<CurveBoundary>();
            let ok = !cycle && b.map(|b| eq(&b.start, st) && eq(&b.end, en) && b.is_cycle() && b.boundary().is_none() && b.geometry_type() == GeometryType::Point(k.dim())).unwrap_or(false);
            c.check(ok, "boundary", || format!("{}: boundary {b:?}, from {st:?} to {en:?}", what()));
        }
    }
    let total: f64 = lens.iter().sum();
    c.within((len - total).abs(), 1e-13 * total + 1e-300, "length", || format!("{}: length {len:?}, its segments measure {total:?}", what()));
    let mut at = probes(c, &ends, len);
    at.extend(probes(c, &lens, len));
    // some of them, all along the curve
    for i in (1..at.len()).rev() {
        let j = c.rng.usize(i + 1);
        at.swap(i, j);
    }
    at.truncate(120);
    at.extend([0., len]);
    let cv2 = cv.clone();
    for s in at {
        let w = || format!("{}: param({s:?} m) of {len:?} m, segments {:?}", what(), ends);
        asked.borrow_mut().clear();
        let Some(p) = c.call("param-panic", w, || cv.param(crs, s * M)) else { return };
        for (i, a, l) in asked.borrow().iter() {
            c.cell("user segment asked");
            c.check(*a >= 0. && a <= l, "asked", || format!("{}: segment {i} of {l:?} m was asked for its position at {a:?} m", w()));
        }
        if len > 0. && s == 0. {
            c.check(eq(&p, st), "param-start", || format!("{}: {p:?} is not the start {st:?}", w()));
        }
        if len > 0. && s == len {
            c.check(eq(&p, en), "param-end", || format!("{}: {p:?} is not the end {en:?}", w()));
        }
        c.check(on_curve(&all, &lens, s, &p), "param", || format!("{}: {p:?} is not there on the curve, positions {all:?}", w()));
        if let Some(q) = c.call("param-panic", w, || cv2.param(crs, s * M)) {
            c.check(bits(&p) == bits(&q), "clone", || format!("{}: {p:?} but {q:?} on a clone", w()));
        }
    }
    let s = len * 1.001 + 1e-3;
    let r = guard(|| cv.param(crs, s * M));
    c.check(r.is_err(), "beyond", || format!("{}: param({s:?} m), beyond the length {len:?} m, gives {r:?}", what()));
}

fn c24_refused(c: &mut Case) {
    let k = crs_around(c, 0.1, 0.5);
    let mut o = crs_around(c, 0.1, 0.5);
    let mut i = 0;
    while o.dim() == k.dim() && i < 40 {
        o = crs_around(c, 0.1, 0.5);
        i += 1;
    }
    let n = n_of(c).min(6);
    let ps = positions(c, &k, n, None);
    let Some((a, ps, _)) = build(c, &k, &ps, false) else { return };
    let last = ps[ps.len() - 1].clone();
    c.hs(&last);
    c.hs(&ps[0]);
    // a gap, sometimes of one ulp on one axis
    let mut gap = last.clone();
    let j = c.rng.usize(gap.len());
    let tiny = c.rng.chance(1, 2);
    gap[j] = if tiny { gap[j].next_up() } else { gap[j] + c.rng.range(0.1, 1.) };
    c.h(gap[j]);
    c.nontrivial();
    let mut far = gap.clone();
    far[0] += 0.1;
    if let Some((b, _, _)) = build(c, &k, &[gap.clone(), far], false) {
        let what = || format!("curve with a segment ending at {last:?} then one starting at {gap:?} in {}", k.desc());
        if let Some(r) = c.call("panic", what, || CurveBuilder::with_seg(k.crs(), a.clone()).and_then(|x| x.append_segment(b.clone())).map(|x| x.build())) {
            c.cell(if tiny { "gap of one ulp" } else { "gap" });
            c.check(r.is_err(), "disconnected", || format!("{}: accepted", what()));
        }
    }
    if o.dim() == k.dim() {
        return;
    }
    // a segment of another dimension, first or next; the common coordinates agree
    let mut p = last.clone();
    p.resize(o.dim(), 0.1);
    let mut q = p.clone();
    q[1] += 0.01;
    if let Some((b, _, _)) = build(c, &o, &[p, q], false) {
        let what = || format!("segment with {} coordinates in a curve of {}", o.dim(), k.desc());
        if let Some(r) = c.call("panic", what, || CurveBuilder::with_seg(k.crs(), a.clone()).and_then(|x| x.append_segment(b.clone())).map(|x| x.build())) {
            c.cell("wrong dimension");
            c.check(r.is_err(), "dim-accepted", || format!("{}: accepted after the first", what()));
        }
        if let Some(r) = c.call("panic", what, || CurveBuilder::with_seg(k.crs(), b.clone()).map(|x| x.build())) {
            c.cell("wrong dimension first");
            c.check(r.is_err(), "dim-accepted-first", || format!("{}: accepted first", what()));
        }
    }
}

fn c24_approx(c: &mut Case) {
    let k = crs_around(c, 0.1, 0.5);
    let n = n_of(c);
    let ps = positions(c, &k, n, None);
    let Some((ls, _, lens)) = build(c, &k, &ps, false) else { return };
    for p in &ps {
        c.hs(p);
    }
    c.nontrivial();
    if let Ok(b) = CurveBuilder::with_seg(k.crs(), ls) {
        let cv = b.build();
        approx(c, &k, &cv, lens.iter().sum(), "curve");
    }
}

fn c24_point(c: &mut Case) {
    let n = c.rng.usize(6);
    let odd = c.rng.chance(1, 4);
    let v: P = (0..n)
        .map(|_| if odd && c.rng.chance(1, 3) { *c.rng.pick(&[f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0., 5e-324]) } else { any_finite(&mut c.rng) })
        .collect();
    let nan = v.iter().any(|x| x.is_nan());
    if odd {
        c.cell("not finite or signed zeros");
    }
    c.hs(&v);
    c.hu(n as u64);
    c.nontrivial();
    let r = guard(|| Point::new(&v));
    if n != 2 && n != 3 {
        c.cell("not a position");
        c.check(r.is_err(), "point-dim", || format!("Point::new({v:?}) gives {r:?}"));
        return;
    }
    let mut p = match r {
        Ok(p) => p,
        Err(m) => {
            c.violate("point-panic", format!("Point::new({v:?}): {m}"));
            return;
        }
    };
    c.cell(if n == 2 { "2D point" } else { "3D point" });
    c.check(bits(&p) == bits(&v), "point", || format!("Point::new({v:?}) holds {p:?}"));
    let a: &[f64] = p.as_ref();
    c.check(bits(a) == bits(&v), "point", || format!("Point::new({v:?}).as_ref() is {a:?}"));
    c.check(p.geometry_type() == GeometryType::Point(n) && p.is_cycle() && p.is_simple() && p.boundary().is_none(), "point-geometry", || format!("{p:?}: {:?}", p.geometry_type()));
    let q = p;
    c.check(nan || p == q, "point-eq", || format!("{p:?} is not equal to its copy"));
    let i = c.rng.usize(n);
    p[i] = 12345.5;
    let mut e = v.clone();
    e[i] = 12345.5;
    c.check(bits(&p) == bits(&e) && bits(&q) == bits(&v), "point-write", || format!("Point::new({v:?}) after writing {i}: {p:?}, copy {q:?}"));
    let j = c.rng.usize(n);
    let w: &mut [f64] = p.as_mut();
    c.check(w.len() == n, "point-write", || format!("as_mut() of a position of {n} coordinates has {}", w.len()));
    w[j] = -4.25;
    e[j] = -4.25;
    c.check(bits(&p) == bits(&e) && bits(&q) == bits(&v), "point-write", || format!("Point::new({v:?}) after writing {i} and {j}: {p:?}, copy {q:?}"));
    c.check(e == v || p != q, "point-eq", || format!("{p:?} equals {q:?}"));
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C23",
            rule: "line strings against their control positions and Crs::dist: ends, length = sum of the segments, param(s) on the segment that holds s at the right proportion, param(0) = start, param(length) = end, at every segment end and its floating point neighbours; wrong dimensions refused",
            assumptions: &["0 <= s <= length", "every segment has a length in its CRS"],
            must_see: &["geocentric", "geographic 2D", "geographic 3D", "projected 2D", "projected 3D", "zero length segment", "closed", "wrong dimension", "decimal grid", "mixed magnitudes", "antimeridian written in two ways", "hundreds of positions", "at the start", "at the end", "user's CRS", "refused by the user's CRS", "compared"],
            streams: vec![
                Stream { name: "line", quick: 60000, thorough: 3000000, f: c23_line },
                Stream { name: "dimensions", quick: 20000, thorough: 200000, f: c23_dims },
                Stream { name: "user", quick: 40000, thorough: 1500000, f: c23_user },
                Stream { name: "approximation", quick: 200, thorough: 2000, f: c23_approx },
            ],
        },
        Property {
            id: "C24",
            rule: "curves of line strings and of recording user-defined segments: ends, length, cycle/boundary, param(s), segments only asked for lengths they have, clones agree; disconnected or wrong-dimension segments refused; points hold their position",
            assumptions: &["0 <= s <= length", "every segment has a length in its CRS"],
            must_see: &["geocentric", "geographic 2D", "projected 2D", "projected 3D", "one segment", "several segments", "cycle", "open", "user segment asked", "gap", "gap of one ulp", "wrong dimension", "wrong dimension first", "2D point", "3D point", "not a position"],
            streams: vec![
                Stream { name: "curve", quick: 15000, thorough: 700000, f: c24_curve },
                Stream { name: "refused", quick: 30000, thorough: 500000, f: c24_refused },
                Stream { name: "approximation", quick: 200, thorough: 2000, f: c24_approx },
                Stream { name: "points", quick: 50000, thorough: 1000000, f: c24_point },
            ],
        },
    ]
}
