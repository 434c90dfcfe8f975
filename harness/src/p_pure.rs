//! C30: results depend on nothing but the arguments.
use crate::gen::*;
use crate::mon::*;
use crate::p_axes::*;
use crate::p_conv::v3;
use crate::p_crs::*;
use crate::p_geod::{az, solver};
use crate::p_proj::{enh, llh};
use crate::rng::{mix, Rng};
use crate::vec3::llh_to_xyz;
use geokit::geodesy::{Ellipsoid, GeodeticDatum};
use geokit::geometry::coordinate::curve::line_string::LineStringBuilder;
use geokit::geometry::coordinate::curve::ParameterizedCurve;
use geokit::projections::{Projection, ProjectionSpec};
use geokit::quantities::angle::Angle;
use geokit::transformations::xyz::{CrsXYZTransformation, XYZIdentity};
use geokit::transformations::CrsTransformation;
use geokit::units::angle::RAD;
use geokit::units::length::M;
use geokit::cs::s1::Interval;
use geokit::geometry::primitive::curve::CurveBuilder;
use geokit::geometry::Geometry;
use geokit::math::complex::Complex;
use geokit::math::fp::{clenshaw_sin_sum, remainder, sum};
use geokit::math::polynomial::Polynomial;
use std::f64::consts::PI;
use std::sync::{Arc, Barrier};

/// Objects that a program would build once and use for long. Many of them resemble each
/// other (same name or id, one parameter apart) so that results mixed up between two of
/// them show.
struct World {
    sh: Arc<Shared>,
    projs: Vec<(usize, ProjectionSpec, Box<dyn Projection>)>,
    trs: Vec<(usize, usize, Box<dyn CrsTransformation>)>,
}
impl std::ops::Deref for World {
    type Target = Shared;
    fn deref(&self) -> &Shared {
        &self.sh
    }
}

/// The part of it that several threads can look at.
struct Shared {
    ells: Vec<Ellipsoid>,
    datums: Vec<GeodeticDatum>,
    specs: Vec<ProjectionSpec>,
    crs: Vec<AnyCrs>,
    geo: Vec<GeoSpec>,
    prj: Vec<ProjSpec>,
    place: (f64, f64),
    seed: u64,
}

/// Carries a value to another thread. Only used after `Share::<T>::SYNC` said that it may.
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
impl<T> Carry<T> {
    fn take(self) -> T {
        self.0
    }
}
struct Share<T>(std::marker::PhantomData<T>);
trait NotSync {
    const SYNC: bool = false;
}
impl<T> NotSync for Share<T> {}
impl<T: Sync + Send> Share<T> {
    const SYNC: bool = true;
}

fn world(seed: u64) -> World {
    inhabit(Arc::new(shared(seed)))
}

fn shared(seed: u64) -> Shared {
    scratch(seed, |c| {
        let place = (lon(&mut c.rng), lat(&mut c.rng).clamp(-1.4, 1.4));
        let (a, f) = (c.rng.range(6.3e6, 6.4e6), c.rng.range(250., 350.));
        let (ne, nd) = (crate::dict::name(a, "E"), crate::dict::name(f, "D"));
        let e = |a: f64, f: f64| Ellipsoid::from_ainvf(ne, a * M, f);
        let ells = vec![e(a, f), e(a, f + 1.), e(a + 500., f), e(a, f64::INFINITY), wgs84().e];
        let p = c.rng.range(-2., 2.);
        let datums = vec![
            GeodeticDatum::new(nd, ells[0].clone(), pm_of(p).pm),
            GeodeticDatum::new(nd, ells[0].clone(), pm_of(p + 0.01).pm),
            GeodeticDatum::new(nd, ells[1].clone(), pm_of(p).pm),
            GeodeticDatum::new(nd, ells[2].clone(), pm_of(p).pm),
            GeodeticDatum::new(nd, ells[3].clone(), pm_of(p).pm),
        ];
        let specs = (0..3).map(|_| spec_around(c, place.0, place.1)).collect();
        let crs: Vec<AnyCrs> = (0..5).map(|_| crs_around(c, place.0, place.1)).collect();
        let geo = (0..4).map(|_| any_geo_spec(c)).collect();
        let prj = (0..4).map(|_| any_proj_spec(c)).collect();
        Shared { ells, datums, specs, crs, geo, prj, place, seed }
    })
}

fn inhabit(sh: Arc<Shared>) -> World {
    let mut r = Rng::new(mix(sh.seed, 77));
    let mut projs = vec![];
    for s in &sh.specs {
        let s = *s;
        for i in [0, 1, 2] {
            projs.push((i, s, s.applied_to(&sh.ells[i])));
        }
        if let ProjectionSpec::TransverseMercator { lon0, lat0, k0, false_easting, false_northing } = s {
            for s in [
                ProjectionSpec::TransverseMercator { lon0: lon0 + Angle::new(0.01, RAD), lat0, k0, false_easting, false_northing },
                ProjectionSpec::TransverseMercator { lon0, lat0, k0: k0 * 1.001, false_easting, false_northing },
            ] {
                projs.push((0, s, s.applied_to(&sh.ells[0])));
            }
        }
    }
    let mut trs: Vec<(usize, usize, Box<dyn CrsTransformation>)> = vec![];
    for i in 0..5 {
        let j = (i + 1 + r.usize(4)) % 5;
        trs.push((i, j, Box::new(CrsXYZTransformation::new(sh.crs[i].clone(), sh.crs[j].clone(), XYZIdentity, XYZIdentity))));
    }
    World { sh, projs, trs }
}

pub const KINDS: usize = 15;

/// Places where computations fail, do not converge or take another path.
const HOSTILE: [(f64, f64); 10] = [
    (PI, 0.),
    (-PI, 0.3),
    (0., PI / 2.),
    (1., -PI / 2.),
    (f64::NAN, 0.3),
    (0.5, f64::NAN),
    (f64::INFINITY, f64::NEG_INFINITY),
    (0., 0.),
    (PI - 0.002, 0.0005),
    (1e9, 1.5),
];

/// One call, determined by (world, seed); every bit of what it returns.
#[inline(never)]
fn exec(w: &World, seed: u64) -> Vec<u64> {
    let mut r = Rng::new(seed);
    let mut out: Vec<u64> = vec![];
    let k = r.usize(KINDS);
    // few distinct inputs, so that the same input meets different objects
    let grid = |r: &mut Rng| (w.place.0 + r.below(4) as f64 * 0.004, w.place.1 + r.below(4) as f64 * 0.003);
    let (lo, la) = if r.chance(1, 8) { *r.pick(&HOSTILE) } else { grid(&mut r) };
    let h = r.below(3) as f64 * 100.;
    let fs = |o: &mut Vec<u64>, v: &[f64]| o.extend(v.iter().map(|x| x.to_bits()));
    let text = |o: &mut Vec<u64>, s: String| o.push(crate::rng::hash_str(&s));
    let res = guard(|| match k {
        0 => {
            let d = r.pick(&w.datums);
            fs(&mut out, &v3(d.llh_to_xyz(llh(lo, la, h))));
        }
        1 => {
            let d = r.pick(&w.datums);
            let p = d.xyz_to_llh(xyz(llh_to(lo, la, h)));
            fs(&mut out, &[p.lon.angle().rad(), p.lat.angle().rad(), p.height.m()]);
        }
        2 => {
            let (_, _, p) = r.pick(&w.projs);
            match p.proj(llh(lo, la, h)) {
                Ok(e) => fs(&mut out, &[e.easting.m(), e.northing.m(), e.height.m()]),
                Err(e) => text(&mut out, format!("{e:?}")),
            }
        }
        3 => {
            let (_, _, p) = r.pick(&w.projs);
            match p.unproj(enh(r.below(4) as f64 * 3e5, r.below(4) as f64 * 1e6, h)) {
                Ok(p) => fs(&mut out, &[p.lon.angle().rad(), p.lat.angle().rad(), p.height.m()]),
                Err(e) => text(&mut out, format!("{e:?}")),
            }
        }
        4 => {
            let e = r.pick(&w.ells);
            let q = grid(&mut r);
            let s = solver(r.usize(3), e);
            match s.solve_direct((mk_lon(lo), mk_lat(la)), az(q.0), [0., 1., 1e3, 1e6, 2e6, 1e7, 2e7, 1e8][r.usize(8)] * M) {
                Ok(g) => text(&mut out, format!("{g:?}")),
                Err(e) => text(&mut out, e.to_string()),
            }
        }
        5 => {
            let e = r.pick(&w.ells);
            let q = match r.below(6) {
                0 => (lo + PI - 0.002, -la + 0.001),
                1 => *r.pick(&HOSTILE),
                _ => grid(&mut r),
            };
            let s = solver(r.usize(2), e);
            match s.solve_inverse((mk_lon(lo), mk_lat(la)), (mk_lon(q.0), mk_lat(q.1))) {
                Ok(g) => text(&mut out, format!("{g:?}")),
                Err(e) => text(&mut out, e.to_string()),
            }
        }
        6 => {
            let k = r.pick(&w.crs);
            let q = grid(&mut r);
            if let (Some(a), Some(b)) = (k.from_xyz(llh_to(lo, la, h)), k.from_xyz(llh_to(q.0, q.1, 0.))) {
                match k.crs().dist(&a, &b) {
                    Ok(d) => fs(&mut out, &[d.m()]),
                    Err(e) => text(&mut out, e.to_string()),
                }
            }
        }
        7 | 8 => {
            let (i, j, t) = r.pick(&w.trs);
            let (s, d) = if k == 7 { (i, j) } else { (j, i) };
            if let Some(a) = w.crs[*s].from_xyz(llh_to(lo, la, h)) {
                let mut o = vec![-1.; w.crs[*d].dim()];
                let x = if k == 7 { t.fwd(&a, &mut o) } else { t.bwd(&a, &mut o) };
                match x {
                    Ok(()) => fs(&mut out, &o),
                    Err(e) => text(&mut out, format!("{e:?}")),
                }
            }
        }
        9 => {
            let g = r.pick(&w.geo);
            let co: Vec<f64> = (0..g.dim).map(|i| [lo, la, h][i] / 3.).collect();
            let p = g.axes.normalize(&co);
            fs(&mut out, &[p.lon.angle().rad(), p.lat.angle().rad(), p.height.m()]);
            let mut b = vec![0.; g.dim];
            g.axes.denormalize(p, &mut b);
            fs(&mut out, &b);
            let g = r.pick(&w.prj);
            let co: Vec<f64> = (0..g.dim).map(|i| [lo * 1e5, la * 1e5, h][i]).collect();
            let p = g.axes.normalize(&co);
            fs(&mut out, &[p.easting.m(), p.northing.m(), p.height.m()]);
        }
        10 => {
            let e = r.pick(&w.ells);
            let l = mk_lat(la);
            fs(&mut out, &[e.e_sq(), e.n(), e.e_prime_sq(), e.prime_vertical_radius(l).m(), e.prime_meridional_radius(l).m(), e.reduced_latitude(l).rad(), e.conformal_sphere_radius(l).m()]);
            let d = r.pick(&w.datums);
            text(&mut out, format!("{d} {:?} {} {}", d, mk_lon(lo), l));
            text(&mut out, format!("{} {}", Angle::new(lo, RAD).dms(), Angle::new(la, RAD).deg()));
        }
        11 | 12 => {
            let line = k == 11;
            let k = r.pick(&w.crs);
            let mut ps = vec![];
            let n = 3 + r.usize(10);
            for i in 0..n {
                // off the grid: lengths whose sum depends on the order
                let q = grid(&mut r);
                match k.from_xyz(llh_to(q.0 + 1e-4 / (i as f64 + 3.), q.1, h)) {
                    Some(p) => ps.push(p),
                    None => return,
                }
            }
            if line {
                let b = ps[2..].iter().fold(LineStringBuilder::with_line(k.crs(), &ps[0], &ps[1]), |b, p| b.and_then(|b| b.line_to(p)));
                match b.map(|b| b.build()) {
                    Ok(l) => {
                        let n = l.length(k.crs());
                        fs(&mut out, &[n.m()]);
                        fs(&mut out, &l.param(k.crs(), n * 0.3));
                    }
                    Err(e) => text(&mut out, e.to_string()),
                }
            } else {
                let seg = |a: &[f64], b: &[f64]| LineStringBuilder::with_line(k.crs(), a, b).map(|b| b.build());
                let b = seg(&ps[0], &ps[1]).and_then(|a| CurveBuilder::with_seg(k.crs(), a));
                let b = ps[1..].windows(2).fold(b, |b, p| b.and_then(|b| b.append_segment(seg(&p[0], &p[1])?)));
                match b.map(|b| b.build()) {
                    Ok(l) => {
                        let n = l.length(k.crs());
                        fs(&mut out, &[n.m(), l.is_cycle() as u64 as f64]);
                        fs(&mut out, &l.param(k.crs(), n * 0.7));
                        text(&mut out, format!("{:?}", l.boundary().is_some()));
                    }
                    Err(e) => text(&mut out, e.to_string()),
                }
            }
        }
        13 => {
            let (a, b) = (r.pick(&w.datums), r.pick(&w.datums));
            out.push((a == b) as u64);
            let k = r.pick(&w.crs);
            let q = grid(&mut r);
            if let (Some(a), Some(b)) = (k.from_xyz(llh_to(lo, la, h)), k.from_xyz(llh_to(q.0, q.1, 0.))) {
                out.push(k.crs().approx_eq(&a, &b, &[1e-3, 1e-3, 1e-3]) as u64);
            }
            let i = Interval::new(Angle::new(lo, RAD), Angle::new(q.0, RAD));
            fs(&mut out, &[i.length().rad(), i.is_empty() as u64 as f64, i.is_full() as u64 as f64]);
            let (x, y) = (mk_lon(lo), mk_lon(q.0));
            fs(&mut out, &[(x - y).rad(), (x + Angle::new(q.1, RAD)).angle().rad(), (az(lo) - az(q.0)).rad(), Angle::new(lo, RAD).normalized().rad()]);
        }
        _ => {
            let q = grid(&mut r);
            fs(&mut out, &[clenshaw_sin_sum(&[lo, la, q.0, q.1], la), remainder(lo * 100., q.1)]);
            let p = Polynomial::new([lo, la, q.0, q.1]);
            let z = p.eval_at(Complex::new(la, q.0));
            fs(&mut out, &[p.fast_eval_at(la), p.eval_at(q.0), z.re, z.im, z.arg().rad(), sum(lo, la).1]);
        }
    });
    if let Err(m) = res {
        text(&mut out, m);
    }
    out.push(k as u64);
    out
}
fn llh_to(lo: f64, la: f64, h: f64) -> [f64; 3] {
    llh_to_xyz(6378137., 6356752.314245179, lo, la, h)
}

fn show(w: &World, seed: u64) -> String {
    let k = Rng::new(seed).usize(KINDS);
    let n = ["llh_to_xyz", "xyz_to_llh", "proj", "unproj", "solve_direct", "solve_inverse", "dist", "fwd", "bwd", "axes", "ellipsoid and texts", "line string", "curve", "comparison", "kernels"][k];
    format!("{n} (call {seed:#x}) around {:?}", w.place)
}

const CELLS: [&str; KINDS] = ["llh_to_xyz", "xyz_to_llh", "proj", "unproj", "solve_direct", "solve_inverse", "dist", "fwd", "bwd", "axes", "ellipsoid and texts", "line string", "curve", "comparison", "kernels"];

fn calls(c: &mut Case, n: usize) -> (u64, Vec<u64>) {
    let ws = c.rng.u64();
    let v: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
    c.hu(ws);
    for s in &v {
        c.hu(*s);
        let k = Rng::new(*s).usize(KINDS);
        c.cell(CELLS[k]);
    }
    c.nontrivial();
    (ws, v)
}
fn shuffle(c: &mut Case, v: &mut [(usize, u64)]) {
    for i in (1..v.len()).rev() {
        let j = c.rng.usize(i + 1);
        v.swap(i, j);
    }
}

/// any order, any repetition, old or new objects
fn c30_history(c: &mut Case) {
    let (ws, v) = calls(c, 24);
    let w = world(ws);
    let first: Vec<Vec<u64>> = v.iter().map(|s| exec(&w, *s)).collect();
    c.sample(|| format!("{} calls: {}", v.len(), v.iter().take(6).map(|s| show(&w, *s)).collect::<Vec<_>>().join("; ")));
    // history independence
    let mut order: Vec<(usize, u64)> = v.iter().copied().enumerate().collect();
    order.extend(order.clone());
    shuffle(c, &mut order);
    for (n, (i, s)) in order.iter().enumerate() {
        let g = exec(&w, *s);
        c.check(g == first[*i], "history", || format!("{}: {:x?} the first time, {g:x?} after {n} other calls", show(&w, *s), first[*i]));
    }
    // other objects made of the same parameters; interleaved with those of another world
    let o = world(mix(ws, 1));
    let w2 = world(ws);
    for (i, s) in order.iter().take(v.len()) {
        exec(&o, *s);
        let g = exec(&w2, *s);
        c.check(g == first[*i], "objects", || format!("{}: {:x?} with the first objects, {g:x?} with identical ones", show(&w, *s), first[*i]));
        // a world built for this call only
        if i % 6 == 0 {
            let g = exec(&world(ws), *s);
            c.check(g == first[*i], "objects", || format!("{}: {:x?} with the first objects, {g:x?} with fresh ones", show(&w, *s), first[*i]));
        }
    }
}

/// several threads at once
fn c30_threads(c: &mut Case) {
    let (ws, v) = calls(c, 48);
    let w = world(ws);
    let first: Vec<Vec<u64>> = v.iter().map(|s| exec(&w, *s)).collect();
    let nt = 4;
    let bar = Arc::new(Barrier::new(nt));
    let all = Arc::new(v.clone());
    let sync = Share::<Shared>::SYNC;
    let share = c.rng.chance(1, 2);
    let n1 = if cfg!(miri) { 12 } else { all.len() };
    c.cell(if sync && share { "objects shared by the threads" } else { "objects of each thread" });
    let hs: Vec<_> = (0..nt)
        .map(|t| {
            let (bar, all) = (bar.clone(), all.clone());
            let sh = Carry((sync && share).then(|| w.sh.clone()));
            std::thread::spawn(move || {
                let w = match sh.take() {
                    Some(s) => inhabit(s),
                    None => world(ws),
                };
                let other = world(mix(ws, t as u64));
                bar.wait();
                let mut out = vec![vec![]; all.len()];
                for n in 0..n1 {
                    // each thread in its own order, two worlds at a time
                    let i = (n * [1, 5, 7, 11][t % 4] + t * 13) % all.len();
                    exec(&other, all[i]);
                    out[i] = exec(&w, all[i]);
                }
                out
            })
        })
        .collect();
    for (t, h) in hs.into_iter().enumerate() {
        match h.join() {
            Ok(o) => {
                c.cell("thread");
                for (i, g) in o.iter().enumerate() {
                    c.check(g.is_empty() || *g == first[i], "threads", || format!("{}: {:x?} alone, {g:x?} in thread {t}", show(&w, v[i]), first[i]));
                }
            }
            Err(_) => c.violate("threads-panic", format!("thread {t} panicked")),
        }
    }
}

/// several threads making calls of the same kind with different arguments all the time: whatever
/// a kind of call would keep between calls is under contention
fn c30_hammer(c: &mut Case) {
    let ws = c.rng.u64();
    let kind = c.idx as usize % KINDS;
    let w = world(ws);
    let mut v: Vec<u64> = vec![];
    while v.len() < 6 {
        let s = c.rng.u64();
        if Rng::new(s).usize(KINDS) == kind {
            v.push(s);
        }
    }
    c.hu(ws);
    v.iter().for_each(|s| c.hu(*s));
    c.cell(CELLS[kind]);
    c.cell("the same kind of call in all threads");
    c.nontrivial();
    let first: Vec<Vec<u64>> = v.iter().map(|s| exec(&w, *s)).collect();
    let nt = 4;
    let rounds = if cfg!(miri) { 4 } else { 3000 };
    let bar = Arc::new(Barrier::new(nt));
    let (all, exp) = (Arc::new(v.clone()), Arc::new(first.clone()));
    let hs: Vec<_> = (0..nt)
        .map(|t| {
            let (bar, all, exp) = (bar.clone(), all.clone(), exp.clone());
            std::thread::spawn(move || {
                let w = world(ws);
                bar.wait();
                let mut bad = None;
                let mut n = 0u64;
                for k in 0..rounds {
                    let i = (k * [1, 5][t % 2] + t) % all.len();
                    let g = exec(&w, all[i]);
                    n += 1;
                    if g != exp[i] && bad.is_none() {
                        bad = Some((i, g));
                    }
                }
                (n, bad)
            })
        })
        .collect();
    for (t, h) in hs.into_iter().enumerate() {
        match h.join() {
            Ok((n, bad)) => {
                c.rec.evals += n;
                c.check(bad.is_none(), "hammer", || {
                    let (i, g) = bad.clone().unwrap();
                    format!("{}: {:x?} alone, {g:x?} in thread {t} of {nt} making such calls", show(&w, v[i]), first[i])
                });
            }
            Err(_) => c.violate("threads-panic", format!("thread {t} panicked")),
        }
    }
}

/// the only call of a new process
fn c30_process(c: &mut Case) {
    let (ws, v) = calls(c, 8);
    let w = world(ws);
    let o = world(mix(ws, 2));
    for s in &v {
        exec(&o, *s);
    }
    let Ok(exe) = std::env::current_exe() else { return };
    for s in v.iter().take(4) {
        let g = exec(&w, *s);
        let r = std::process::Command::new(&exe).args(["c30child", &ws.to_string(), &s.to_string()]).output();
        match r {
            Ok(r) if r.status.success() => {
                c.cell("process");
                let t = String::from_utf8_lossy(&r.stdout).trim().to_string();
                let e = format!("{g:x?}");
                c.check(t == e, "process", || format!("{}: {e} here, {t} in a process of its own", show(&w, *s)));
            }
            Ok(r) => c.violate("process-failed", format!("{}: the process ended with {}", show(&w, *s), r.status)),
            Err(_) => {}
        }
    }
}

pub fn child(ws: u64, s: u64) -> i32 {
    println!("{:x?}", exec(&world(ws), s));
    0
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C30",
        rule: "bit-for-bit comparison of the same call made first, again in another order among others, on reused and on identical new objects, concurrently in four threads and as the only call of a new process; look-alike objects (same name or id, one parameter apart)",
        assumptions: &["the same binary on the same machine"],
        must_see: &["llh_to_xyz", "xyz_to_llh", "proj", "unproj", "solve_direct", "solve_inverse", "dist", "fwd", "bwd", "axes", "ellipsoid and texts", "line string", "curve", "comparison", "kernels", "thread", "the same kind of call in all threads", "process"],
        streams: vec![
            Stream { name: "history", quick: 4000, thorough: 150000, f: c30_history },
            Stream { name: "threads", quick: 400, thorough: 15000, f: c30_threads },
            Stream { name: "hammer", quick: 150, thorough: 6000, f: c30_hammer },
            Stream { name: "process", quick: 60, thorough: 1500, f: c30_process },
        ],
    }]
}
