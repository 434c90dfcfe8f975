//! C29 numerical kernels.
use crate::gen::*;
use crate::mon::*;
use geokit::math::complex::Complex;
use geokit::math::fp;
use geokit::math::polynomial::Polynomial;
use geokit::math::utils::iter_fn;
use num::Zero;
use std::cell::RefCell;
use std::f64::consts::{FRAC_PI_2, FRAC_PI_4, PI, TAU};

const E: f64 = f64::EPSILON;

/// finite values over many magnitudes, without overflow in a product of a few of them
fn num(c: &mut Case) -> f64 {
    match c.rng.below(6) {
        0 => *c.rng.pick(&[0., -0., 1., -1., 0.5, 2., 3., 10.]),
        1 => c.rng.below(1000) as f64 - 500.,
        2 => c.rng.log(1e-60, 1e60) * c.rng.sign(),
        _ => c.rng.range(-10., 10.),
    }
}

/// double-double value
#[derive(Clone, Copy)]
struct DD(f64, f64);
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    // Dekker's branch on magnitude, a different algorithm from the library's
    let (a, b) = if a.abs() >= b.abs() { (a, b) } else { (b, a) };
    let s = a + b;
    (s, b - (s - a))
}
impl DD {
    fn add(self, o: DD) -> DD {
        let (s, e) = two_sum(self.0, o.0);
        let (s, e) = two_sum(s, e + self.1 + o.1);
        DD(s, e)
    }
    fn mul(self, x: f64) -> DD {
        let p = self.0 * x;
        let e = self.0.mul_add(x, -p) + self.1 * x;
        let (s, e) = two_sum(p, e);
        DD(s, e)
    }
}

fn c29_sum(c: &mut Case) {
    let (a, b) = if c.rng.chance(1, 3) {
        let a = num(c);
        (a, -a * (1. + c.rng.range(-4., 4.) * E))
    } else if c.rng.chance(1, 3) {
        let a = c.rng.log(1e-300, 1e300) * c.rng.sign();
        (a, a * c.rng.log(1e-20, 1e4) * c.rng.sign())
    } else {
        (num(c), num(c))
    };
    c.hs(&[a, b]);
    c.nontrivial();
    let (s, e) = fp::sum(a, b);
    let (rs, re) = two_sum(a, b);
    c.cell(if re != 0. { "rounded sum" } else { "exact sum" });
    c.check(s == rs && e == re, "sum", || format!("sum({a:?}, {b:?}) = ({s:?}, {e:?}), exactly ({rs:?}, {re:?})"));
    let q = fp::sq(a);
    c.check(q == a * a, "sq", || format!("sq({a:?}) = {q:?}"));
}

fn c29_remainder(c: &mut Case) {
    let r = match c.rng.below(5) {
        0 => 360.,
        1 => TAU,
        2 => 400.,
        3 => PI,
        _ => c.rng.log(1e-6, 1e6),
    };
    let v = match c.rng.below(6) {
        0 => {
            let k = c.rng.below(2001) as f64 - 1000.;
            nudge(&mut c.rng, k * r / 2.)
        }
        1 => c.rng.log(1e-12, 1e18) * c.rng.sign(),
        2 => (c.rng.below(41) as f64 - 20.) * r / 4.,
        _ => c.rng.range(-10., 10.) * r,
    };
    c.hs(&[v, r]);
    c.nontrivial();
    let g = fp::remainder(v, r);
    c.check(g.abs() <= r / 2., "remainder-range", || format!("remainder({v:?}, {r:?}) = {g:?} is not within half a period"));
    // exact: fmod is exact, and so is the final fold up to one rounding
    let m = v % r;
    let e = if m > r / 2. {
        m - r
    } else if m < -r / 2. {
        m + r
    } else {
        m
    };
    let d = (g - e).abs();
    let d = d.min((d - r).abs());
    c.within(d, 4. * E * r, "remainder", || format!("remainder({v:?}, {r:?}) = {g:?}, expected {e:?}"));
    c.cell(if v.abs() > 1e6 * r { "many periods" } else { "few periods" });
}

fn c29_clenshaw(c: &mut Case) {
    let n = c.rng.usize(12);
    let scale = *c.rng.pick(&[1., 1e-3, 1e6]);
    let mut ck: Vec<f64> = (0..n).map(|_| c.rng.range(-1., 1.) * scale).collect();
    if n > 1 && c.rng.chance(1, 4) {
        // one harmonic only
        let k = c.rng.usize(n);
        for (i, v) in ck.iter_mut().enumerate() {
            if i != k {
                *v = 0.;
            }
        }
        c.cell("one harmonic");
    }
    let x = match c.rng.below(4) {
        0 => angle_any(&mut c.rng).clamp(-1e3, 1e3),
        1 => *c.rng.pick(&[0., PI, -PI, FRAC_PI_2, TAU, 1e-9]),
        _ => c.rng.range(-PI, PI),
    };
    c.hs(&ck);
    c.h(x);
    c.nontrivial();
    c.cell(match n {
        0 => "no coefficient",
        1 => "constant coefficient only",
        _ => "several coefficients",
    });
    let what = || format!("clenshaw_sin_sum({ck:?}, {x:?})");
    let Some(g) = c.call("panic", what, || fp::clenshaw_sin_sum(&ck, x)) else { return };
    // sin(k x), directly
    let e: f64 = ck.iter().enumerate().map(|(k, v)| v * (k as f64 * x).sin()).sum();
    let mag: f64 = ck.iter().enumerate().map(|(k, v)| v.abs() * (1. + k as f64)).sum();
    // the recurrence loses up to n/sin(x) near multiples of pi
    let tol = 64. * E * (1. + x.abs()) * mag * (1. + n as f64) + 1e-300;
    c.within((g - e).abs(), tol, "clenshaw", || format!("{} = {g:?}, the sum of the sines is {e:?}", what()));
}

fn poly<const D: usize>(c: &mut Case) {
    let mut k = [0.; D];
    for v in k.iter_mut() {
        *v = num(c).clamp(-1e6, 1e6);
    }
    let x = num(c).clamp(-1e3, 1e3);
    c.hs(&k);
    c.h(x);
    c.nontrivial();
    let p = Polynomial::<D>::new(k);
    let mut e = DD(0., 0.);
    let mut mag = 0.;
    for v in k.iter().rev() {
        e = e.mul(x).add(DD(*v, 0.));
        mag = mag * x.abs() + v.abs();
    }
    let tol = 2. * D as f64 * E * mag + 1e-300;
    let g = p.eval_at(x);
    c.within((g - e.0).abs(), tol, "polynomial", || format!("polynomial {k:?} at {x:?}: {g:?}, expected {:?}", e.0));
    let g = p.fast_eval_at(x);
    c.within((g - e.0).abs(), tol, "polynomial-fast", || format!("polynomial {k:?} at {x:?} (fast): {g:?}, expected {:?}", e.0));
    // at a complex value: powers in polar form
    let (r, t) = (c.rng.range(0., 3.), c.rng.range(-PI, PI));
    let z = Complex::new(r * t.cos(), r * t.sin());
    let (mut re, mut im, mut mag) = (0., 0., 0.);
    for (i, v) in k.iter().enumerate() {
        let m = v * r.powi(i as i32);
        re += m * (i as f64 * t).cos();
        im += m * (i as f64 * t).sin();
        mag += m.abs() * (1. + i as f64);
    }
    let g = p.eval_at(z);
    c.within((g.re - re).hypot(g.im - im), 32. * E * mag + 1e-300, "polynomial-complex", || format!("polynomial {k:?} at {z:?}: {g:?}, expected {re:?} + {im:?} i"));
    c.check(p == Polynomial::new(k), "polynomial-eq", || format!("{p:?} differs from itself"));
    if D > 0 {
        let mut k2 = k;
        k2[D - 1] += 1.;
        if k2[D - 1] != k[D - 1] {
            c.check(p != Polynomial::new(k2), "polynomial-eq", || format!("{p:?} equals {k2:?}"));
        }
    }
}
fn c29_polynomial(c: &mut Case) {
    match c.rng.below(8) {
        0 => poly::<0>(c),
        1 => poly::<1>(c),
        2 => poly::<2>(c),
        3 => poly::<3>(c),
        4 => poly::<4>(c),
        5 => poly::<6>(c),
        6 => poly::<7>(c),
        _ => poly::<12>(c),
    }
    c.cell("polynomial");
}

fn c29_complex(c: &mut Case) {
    let (a, b, p, q, s) = (num(c), num(c), num(c), num(c), num(c));
    c.hs(&[a, b, p, q, s]);
    c.nontrivial();
    let (z, w) = (Complex::new(a, b), Complex::new(p, q));
    let (mz, mw) = (a.hypot(b), p.hypot(q));
    let same = |c: &mut Case, n: &str, g: Complex, re: f64, im: f64, tol: f64| {
        c.within((g.re - re).hypot(g.im - im), tol + 1e-300, "complex", || format!("{n} of {z:?} and {w:?} / {s:?}: {g:?}, expected {re:?} + {im:?} i"));
    };
    same(c, "sum", z + w, a + p, b + q, 0.);
    same(c, "difference", z - w, a - p, b - q, 0.);
    same(c, "sum with a real", z + s, a + s, b, 0.);
    same(c, "difference with a real", z - s, a - s, b, 0.);
    same(c, "conjugate", z.conj(), a, -b, 0.);
    let re = DD(a, 0.).mul(p).add(DD(b, 0.).mul(-q)).0;
    let im = DD(a, 0.).mul(q).add(DD(b, 0.).mul(p)).0;
    same(c, "product", z * w, re, im, 4. * E * mz * mw);
    same(c, "product with a real", z * s, a * s, b * s, 4. * E * mz * s.abs());
    if s != 0. {
        same(c, "quotient by a real", z / s, a / s, b / s, 4. * E * mz / s.abs());
    }
    c.within((z.abs() - mz).abs(), 4. * E * mz, "abs", || format!("|{z:?}| = {:?}, expected {mz:?}", z.abs()));
    c.within((z.abs_sq() - mz * mz).abs(), 8. * E * mz * mz + 1e-300, "abs_sq", || format!("|{z:?}|^2 = {:?}", z.abs_sq()));
    c.check(z.is_zero() == (a == 0. && b == 0.) && Complex::zero().is_zero(), "zero", || format!("{z:?} is zero: {}", z.is_zero()));
    match w.inv() {
        Ok(v) => {
            c.check(mw > 0., "inv", || format!("1 / {w:?} = {v:?}"));
            if mw > 1e-70 && mw < 1e70 {
                c.cell("inverse");
                let (e, f) = (p / mw / mw, -q / mw / mw);
                c.within((v.re - e).hypot(v.im - f), 16. * E / mw, "inv", || format!("1 / {w:?} = {v:?}"));
                match z / w {
                    Ok(d) => {
                        let n = z * w.conj();
                        let (e, f) = (n.re / mw / mw, n.im / mw / mw);
                        c.within((d.re - e).hypot(d.im - f), 64. * E * mz / mw + 1e-300, "div", || format!("{z:?} / {w:?} = {d:?}, expected {e:?} + {f:?} i"));
                    }
                    Err(m) => c.violate("div", format!("{z:?} / {w:?}: Err({m})")),
                }
            }
        }
        Err(m) => {
            c.cell("inverse of zero");
            c.check(mw == 0., "inv", || format!("1 / {w:?}: Err({m})"));
            c.check((z / w).is_err(), "div-zero", || format!("{z:?} / {w:?} is not refused"));
        }
    }
    // argument in (-pi..pi]
    let t = z.arg().rad();
    c.check(t > -PI && t <= PI, "arg-range", || format!("arg({z:?}) = {t:?} not in (-pi..pi]"));
    if mz > 1e-200 && mz < 1e200 {
        let (x, y) = (mz * t.cos(), mz * t.sin());
        c.within((x - a).hypot(y - b), 8. * E * mz, "arg", || format!("arg({z:?}) = {t:?}"));
        if b == 0. && a < 0. {
            c.cell("negative real");
            c.check(t == PI, "arg-negative", || format!("arg({z:?}) = {t:?}"));
        }
    }
}

fn c29_iter(c: &mut Case) {
    // x -> contraction towards a target; the function is recorded
    let target = [c.rng.range(-100., 100.), c.rng.range(-1., 1.), c.rng.range(-1e6, 1e6)];
    let mut init = [c.rng.range(-100., 100.), c.rng.range(-1., 1.), c.rng.range(-1e6, 1e6)];
    if c.rng.chance(1, 8) {
        init = target;
    }
    let q = [c.rng.range(0., 0.9), c.rng.range(0., 0.9), c.rng.range(0., 0.9)];
    let eps = [c.rng.log(1e-10, 1e-2), c.rng.log(1e-10, 1e-2), c.rng.log(1e-9, 1e2)];
    c.hs(&target);
    c.hs(&init);
    c.hs(&q);
    c.hs(&eps);
    c.nontrivial();
    let log: RefCell<Vec<[f64; 3]>> = RefCell::new(vec![]);
    let f = |x: [f64; 3]| {
        log.borrow_mut().push(x);
        if log.borrow().len() > 100000 {
            panic!("no end");
        }
        [(1. - q[0]) * (target[0] - x[0]), (1. - q[1]) * (target[1] - x[1]), (1. - q[2]) * (target[2] - x[2])]
    };
    let what = || format!("iter_fn from {init:?} to {target:?} with contractions {q:?} to {eps:?}");
    let Some(r) = c.call("iter-panic", what, || iter_fn(init, &f, eps)) else { return };
    let l = log.borrow().clone();
    c.check(l.first() == Some(&init), "iter-start", || format!("{}: starts at {:?}", what(), l.first()));
    c.cell(if l.len() > 1 { "several iterations" } else { "one iteration" });
    for i in 0..3 {
        // |delta| < eps on the last step, and that delta is applied
        let tol = eps[i] * q[i] / (1. - q[i]) + 1e-9 * eps[i] + 4. * E * (target[i].abs() + init[i].abs());
        c.within((r[i] - target[i]).abs(), tol, "iter", || format!("{}: {r:?} after {} steps", what(), l.len()));
    }
    // the last step is small enough on every component
    let x = l[l.len() - 1];
    let small = (0..3).all(|i| ((1. - q[i]) * (target[i] - x[i])).abs() <= eps[i]);
    c.check(small, "iter-stop", || format!("{}: last of {} steps at {x:?}", what(), l.len()));
}

fn c29_consts(c: &mut Case) {
    c.hu(c.idx);
    c.nontrivial();
    c.cell("constants");
    c.check(fp::ZERO == 0. && fp::PI_2 == FRAC_PI_2 && fp::PI_4 == FRAC_PI_4 && fp::PI == PI && fp::TAU == TAU, "constants", || format!("{:?} {:?} {:?} {:?} {:?}", fp::ZERO, fp::PI_2, fp::PI_4, fp::PI, fp::TAU));
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C29",
        rule: "error-free sum against Dekker's algorithm, remainder against the exact fmod, Clenshaw against the direct sine sum, polynomials against double-double Horner and polar powers, complex arithmetic against its definition, fixed point iteration against contractions with a recorded trace",
        assumptions: &["no overflow or underflow in the intermediate products", "the iterated function is a contraction"],
        must_see: &["rounded sum", "exact sum", "many periods", "few periods", "no coefficient", "constant coefficient only", "several coefficients", "one harmonic", "polynomial", "inverse", "inverse of zero", "negative real", "several iterations", "one iteration", "constants"],
        streams: vec![
            Stream { name: "sum", quick: 300000, thorough: 20000000, f: c29_sum },
            Stream { name: "remainder", quick: 300000, thorough: 20000000, f: c29_remainder },
            Stream { name: "clenshaw", quick: 300000, thorough: 20000000, f: c29_clenshaw },
            Stream { name: "polynomial", quick: 300000, thorough: 20000000, f: c29_polynomial },
            Stream { name: "complex", quick: 300000, thorough: 20000000, f: c29_complex },
            Stream { name: "iteration", quick: 50000, thorough: 2000000, f: c29_iter },
            Stream { name: "constants", quick: 1, thorough: 1, f: c29_consts },
        ],
    }]
}
