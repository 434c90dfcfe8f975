//! C32: the sample_s2 command line tool.
use crate::mon::*;
use std::f64::consts::{FRAC_PI_2, PI};
use std::process::{Command, Stdio};

fn bin() -> String {
    std::env::var("GK_SAMPLE_BIN").unwrap_or_else(|_| "/verif/target/bin/release/sample_s2".into())
}

/// Kolmogorov-Smirnov distance to the uniform distribution of [0, 1], times sqrt(n).
/// Above 4.6 with probability 2 exp(-2 * 4.6^2) < 1e-18.
fn ks(mut v: Vec<f64>) -> f64 {
    v.sort_by(|a, b| a.total_cmp(b));
    let n = v.len() as f64;
    let mut d = 0f64;
    for (i, x) in v.iter().enumerate() {
        d = d.max((x - i as f64 / n).abs()).max(((i + 1) as f64 / n - x).abs());
    }
    d * n.sqrt()
}
const KS_MAX: f64 = 4.6;

/// the widest interval of [0, 1] without a sample, times n: above 60 with probability n exp(-60) < 1e-20
fn gap(mut v: Vec<f64>) -> f64 {
    v.sort_by(|a, b| a.total_cmp(b));
    let n = v.len() as f64;
    let mut last = 0.;
    let mut g = 0f64;
    for x in v.into_iter().chain([1.]) {
        g = g.max(x - last);
        last = x;
    }
    g * n
}

/// a single long run per type of coordinates: what the short runs cannot resolve
fn long_case(c: &mut Case) {
    run_case(c, true)
}
fn sample_case(c: &mut Case) {
    run_case(c, false)
}
fn run_case(c: &mut Case, long: bool) {
    let ty = if long { [2, 1, 0][c.idx as usize % 3] } else { c.rng.usize(4) }; // 3: default, which is xyz
    let n = match c.rng.below(24) {
        _ if long => 400_000,
        0..4 => c.rng.below(4),
        4..7 => c.rng.below(100),
        7 => *c.rng.pick(&[255, 256, 257, 32768, 65535, 65536, 65537]),
        8 => {
            c.cell("many samples");
            65538 + c.rng.below(200_000)
        }
        _ => 2000 + c.rng.below(4000),
    } as usize;
    let n = if long { n } else { crate::dict::size(&mut c.rng, 300_000).unwrap_or(n) };
    let mut args = vec![n.to_string()];
    match ty {
        0 => args.push("xyz".into()),
        1 => args.push("lon-lat".into()),
        2 => args.push("lon-lat-height".into()),
        _ => (),
    }
    let mut a = 6378137.0f64;
    if c.rng.chance(2, 3) {
        a = *c.rng.pick(&[1., 1000., 6371000., 6378388., 3396190., 1e8]);
        args.push(if c.rng.chance(1, 2) { format!("-a={a}") } else { format!("--semi-major-axis={a}") });
    }
    let mut invf = 298.257_223_563f64;
    if c.rng.chance(2, 3) {
        invf = *c.rng.pick(&[f64::INFINITY, 300., 10., 3., 2., 1.5]);
        args.push(format!("--inverse-flattening={invf}"));
    }
    let mut mpu = 1f64;
    if c.rng.chance(2, 3) {
        mpu = *c.rng.pick(&[0.3048, 1200. / 3937., 1000., 0.001, 1.]);
        args.push(format!("--meter-per-unit={mpu}"));
    }
    let mut rpu = PI / 180.;
    if c.rng.chance(2, 3) {
        rpu = *c.rng.pick(&[1., PI / 200., PI / 180., PI / 648000.]);
        args.push(format!("--rad-per-unit={rpu}"));
    }
    c.hu(crate::rng::hash_str(&args.join(" ")));
    let what = format!("sample_s2 {}", args.join(" "));
    let out = match Command::new(bin()).args(&args).stdin(Stdio::null()).output() {
        Ok(o) => o,
        Err(e) => {
            c.rec.broken.push(format!("cannot run {}: {e}", bin()));
            return;
        }
    };
    if !c.check(out.status.success(), "exit", || format!("{what}: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr))) {
        return;
    }
    let txt = String::from_utf8_lossy(&out.stdout).into_owned();
    let lines: Vec<&str> = txt.lines().collect();
    if !c.check(lines.len() == n, "count", || format!("{what}: {} lines", lines.len())) {
        return;
    }
    c.cell(["xyz", "lon-lat", "lon-lat-height", "default type"][ty]);
    if n == 0 {
        c.cell("no sample");
    }
    let cols = [3, 2, 3, 3][ty];
    // points of the unit sphere the samples come from
    let (mut zs, mut ls, mut hs) = (vec![], vec![], vec![]);
    let (ua, ub) = (a / mpu, a * (1. - 1. / invf) / mpu);
    for l in &lines {
        let v: Vec<f64> = l.split_whitespace().filter_map(|t| t.parse().ok()).collect();
        if !c.check(v.len() == cols && l.split_whitespace().count() == cols && v.iter().all(|x| x.is_finite()), "columns", || format!("{what}: {l:?}")) {
            return;
        }
        if cols == 3 && ty != 2 {
            let s = [v[0] / ua, v[1] / ua, v[2] / ub];
            let r = (s[0] * s[0] + s[1] * s[1] + s[2] * s[2]).sqrt();
            c.within((r - 1.).abs(), 1e-8 / ub + 1e-14, "on-ellipsoid", || format!("{what}: {l:?} is not on the ellipsoid of semi-axes {ua:?} {ub:?}"));
            zs.push(s[2] / r);
            ls.push(s[1].atan2(s[0]));
        } else {
            let (lo, la) = (v[0] * rpu, v[1] * rpu);
            let t = 1e-12 * rpu + 1e-15;
            c.check(lo.abs() <= PI + t && la.abs() <= FRAC_PI_2 + t, "range", || format!("{what}: {l:?}: longitude {lo:?} latitude {la:?} rad"));
            zs.push(((1. - 1. / invf) * la.tan()).atan().sin());
            ls.push(lo);
            if ty == 2 {
                let h = v[2] * mpu;
                c.check(h >= -1500. - 1e-3 * mpu && h <= 30000. + 1e-3 * mpu, "height", || format!("{what}: {l:?}: height {h:?} m"));
                hs.push((h + 1500.) / 31500.);
            }
        }
    }
    if n >= 2000 {
        c.cell("distribution judged");
        let k = ks(zs.iter().map(|z| (z + 1.) / 2.).collect());
        c.within(k, KS_MAX, "uniform-z", || format!("{what}: the reduced latitudes are not those of uniform points of the sphere"));
        let k = ks(ls.iter().map(|l| (l + PI) / (2. * PI)).collect());
        c.within(k, KS_MAX, "uniform-lon", || format!("{what}: the longitudes are not uniform"));
        if ty == 2 {
            let k = ks(hs.clone());
            c.within(k, KS_MAX, "uniform-height", || format!("{what}: the heights are not uniform in -1500..30000 m"));
        }
        let g = gap(zs.iter().map(|z| (z + 1.) / 2.).collect());
        c.within(g, 60., "gap-z", || format!("{what}: reduced latitudes missing"));
        let g = gap(ls.iter().map(|l| (l + PI) / (2. * PI)).collect());
        c.within(g, 60., "gap-lon", || format!("{what}: longitudes missing"));
        if ty == 2 {
            let g = gap(hs.clone());
            c.within(g - n as f64 * 1e-3 * mpu / 31500., 60., "gap-height", || format!("{what}: heights missing in -1500..30000 m"));
        }
        // as many samples in every part of the sphere (and of the heights)
        if long {
            c.cell("long run");
            let (nz, nl, nh) = (16usize, 16usize, if ty == 2 { 4usize } else { 1 });
            let mut k = vec![0u32; nz * nl * nh];
            for i in 0..n {
                let b = |x: f64, n: usize| ((x * n as f64) as usize).min(n - 1);
                let h = hs.get(i).copied().unwrap_or(0.);
                k[(b((zs[i] + 1.) / 2., nz) * nl + b((ls[i] + PI) / (2. * PI), nl)) * nh + b(h, nh)] += 1;
            }
            let m = n as f64 / k.len() as f64;
            for (i, x) in k.iter().enumerate() {
                c.within((*x as f64 - m).abs() / m.sqrt(), 10., "cells", || format!("{what}: {x} samples in the part {i} of {}, expected about {m:.0}", nz * nl * nh));
            }
        }
        // longitude and latitude are independent (mean of products, each of variance 1/6: 8 sigma)
        let m = zs.iter().zip(&ls).map(|(z, l)| z * l.cos()).sum::<f64>() / (n as f64 / 6.).sqrt();
        c.within(m.abs(), 8., "independent", || format!("{what}: longitude and latitude are correlated"));
        let m = zs.iter().zip(&ls).map(|(z, l)| z * l.sin()).sum::<f64>() / (n as f64 / 6.).sqrt();
        c.within(m.abs(), 8., "independent", || format!("{what}: longitude and latitude are correlated"));
        let m = hs.iter().zip(&ls).map(|(h, l)| (h - 0.5) * l.cos()).sum::<f64>() / (n as f64 / 24.).sqrt();
        c.within(m.abs(), 8., "independent", || format!("{what}: height and longitude are correlated"));
        let m = hs.iter().zip(&zs).map(|(h, z)| (h - 0.5) * z).sum::<f64>() / (n as f64 / 36.).sqrt();
        c.within(m.abs(), 8., "independent", || format!("{what}: height and latitude are correlated"));
        // no sample twice
        let mut b: Vec<(u64, u64)> = zs.iter().zip(&ls).map(|(a, b)| (a.to_bits(), b.to_bits())).collect();
        b.sort_unstable();
        b.dedup();
        c.check(b.len() * 100 >= n * 99, "repeated", || format!("{what}: {} distinct samples", b.len()));
    }
    c.nontrivial();
    c.sample(|| format!("{what}: {:?}...", lines.first()));
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C32",
        rule: "execution = one run of the sample_s2 program with a combination of sample count, coordinate type, ellipsoid and units; every printed line is parsed: number of lines and columns, position on the requested ellipsoid, ranges, distribution (Kolmogorov-Smirnov at a false alarm rate below 1e-17, correlations at 8 standard deviations, widest gap, counts in parts of the sphere at 10). Non-trivial: every run, distinct by its arguments.",
        assumptions: &["the distribution is judged from 2000 samples on; a deviation below about 7% of the cumulative distribution (0.8% in the long runs), an interval of less than 60 / n without a sample or a part of 1/256 of the sphere off by less than a quarter is not seen"],
        must_see: &["xyz", "lon-lat", "lon-lat-height", "default type", "distribution judged", "no sample", "many samples", "long run"],
        streams: vec![Stream { name: "long", quick: 12, thorough: 120, f: long_case }, Stream { name: "run", quick: 600, thorough: 20_000, f: sample_case }],
    }]
}
