//! C01, C02: geodetic <-> geocentric conversion of a datum.
use crate::gen::*;
use crate::mon::*;
use crate::vec3::*;
use geokit::cs::cartesian::geocentric::XYZ;
use geokit::cs::geodetic::LLH;
use std::f64::consts::{FRAC_PI_2, PI};

fn llh(lon: f64, lat: f64, h: f64) -> LLH {
    LLH {
        lon: mk_lon(lon),
        lat: mk_lat(lat),
        height: mk_len(h),
    }
}
fn xyz(v: V3) -> XYZ {
    XYZ {
        x: mk_len(v[0]),
        y: mk_len(v[1]),
        z: mk_len(v[2]),
    }
}
pub fn v3(p: XYZ) -> V3 {
    [p.x.m(), p.y.m(), p.z.m()]
}

fn fwd_case(c: &mut Case, e: &Ell, p: &Pm, lo: f64, la: f64, h: f64) {
    let d = datum(e, p);
    let desc = || {
        format!(
            "ellipsoid {} (a={}, b={}), prime meridian {} ({} rad), lon={:?} lat={:?} h={:?}",
            e.id, e.a, e.b, p.id, p.lon, lo, la, h
        )
    };
    c.hs(&[e.a, e.b, p.lon, lo, la, h]);
    let Some(r) = c.call("panic", desc, || d.llh_to_xyz(llh(lo, la, h))) else {
        return;
    };
    let exp = llh_to_xyz(e.a, e.b, lo + p.lon, la, h);
    let err = dist(v3(r), exp);
    let tol = 1e-14 * (e.a + h.abs());
    c.within(err, tol, "forward-position", || {
        format!("{} -> {:?}, expected {:?}", desc(), v3(r), exp)
    });
    if e.sphere() {
        c.cell("sphere");
    } else {
        c.cell("ellipsoid");
    }
    if p.lon != 0. {
        c.cell("non-Greenwich prime meridian");
    }
    if la.abs() == FRAC_PI_2 {
        c.cell("pole");
    }
    if lo.abs() == PI {
        c.cell("antimeridian");
    }
    if h < 0. {
        c.cell("below ellipsoid");
    }
    c.nontrivial();
    c.sample(|| format!("{} -> {:?}", desc(), v3(r)));
}

fn fwd_random(c: &mut Case) {
    let e = ell_any(&mut c.rng);
    let p = pm_any(&mut c.rng);
    let (lo, la) = (lon(&mut c.rng), lat(&mut c.rng));
    let h = match c.rng.below(12) {
        0 => -e.a * c.rng.range(0.1, 3.),
        1 => e.a * c.rng.log(1., 1e6) * c.rng.sign(),
        _ => height(&mut c.rng) * (e.a / 6.4e6).min(1.0),
    };
    if h < -e.a {
        c.cell("beyond the centre");
    }
    fwd_case(c, &e, &p, lo, la, h);
}

/// every well-known ellipsoid x a grid of positions
fn fwd_grid(c: &mut Case) {
    let t = ell_table();
    let e = t[(c.idx % t.len() as u64) as usize].clone();
    let k = c.idx / t.len() as u64;
    let la = ((k % 37) as f64 * 5. - 90.) * D2R;
    let lo = (((k / 37) % 25) as f64 * 15. - 180.) * D2R;
    let p = pm_any(&mut c.rng);
    let h = height(&mut c.rng);
    fwd_case(c, &e, &p, lo, la, h);
}

/// Smallest radius of curvature: below that depth the geodetic height is not unique.
fn max_depth(e: &Ell) -> f64 {
    e.b * e.b / e.a
}

fn inv_case(c: &mut Case, e: &Ell, p: &Pm, lo: f64, la: f64, h: f64, axis: bool, given: Option<V3>) {
    let d = datum(e, p);
    let (lo_g, la) = (lo + p.lon, la);
    let mut x = given.unwrap_or_else(|| llh_to_xyz(e.a, e.b, lo_g, la, h));
    if axis {
        // zeros of both signs
        x[0] = if c.rng.chance(1, 2) { 0. } else { -0. };
        x[1] = if c.rng.chance(1, 2) { 0. } else { -0. };
    }
    if norm(x) < 3. * (e.a - e.b) * (e.a + e.b) / e.b || norm(x) < 0.01 * e.a {
        c.cell("skipped: too close to the centre");
        return;
    }
    let desc = || {
        format!(
            "ellipsoid {} (a={}, b={}), prime meridian {} ({} rad), xyz={:?} (= lon {:?} lat {:?} h {:?})",
            e.id, e.a, e.b, p.id, p.lon, x, lo, la, h
        )
    };
    c.hs(&[e.a, e.b, p.lon, x[0], x[1], x[2]]);
    let Some(r) = c.call("panic", desc, || d.xyz_to_llh(xyz(x))) else {
        return;
    };
    let (rlo, rla, rh) = (r.lon.angle().rad(), r.lat.angle().rad(), r.height.m());
    c.check(rlo.abs() <= PI && rla.abs() <= FRAC_PI_2 && rh.is_finite(), "inverse-range", || {
        format!("{} -> lon {rlo:?} lat {rla:?} h {rh:?} out of range", desc())
    });
    let scale = e.a + h.abs();
    // certificate: the returned geodetic position is that very point in space
    let back = llh_to_xyz(e.a, e.b, rlo + p.lon, rla, rh);
    // conditioning degrades close to the evolute, i.e. when deep below the surface
    let depth = 1.0 + (-h).max(0.0) / (max_depth(e) + h).max(1e-9 * e.a);
    let tol = 3e-14 * scale * depth;
    c.within(dist(back, x), tol, "inverse-position", || {
        format!("{} -> lon {rlo:?} lat {rla:?} h {rh:?}, which is the point {back:?}", desc())
    });
    // and it is the foot of the perpendicular on the near side
    c.within((rh - h).abs(), tol, "inverse-height", || {
        format!("{} -> height {rh:?}", desc())
    });
    let dla = (rla - la).abs() * (max_depth(e) + h).max(0.);
    c.within(dla, tol * 2., "inverse-latitude", || {
        format!("{} -> latitude {rla:?}, expected {la:?}", desc())
    });
    let rho = x[0].hypot(x[1]);
    if rho > 0. {
        let dlo = (rlo - lo).rem_euclid(2. * PI);
        let dlo = dlo.min(2. * PI - dlo);
        c.within(dlo * rho, tol * 2., "inverse-longitude", || {
            format!("{} -> longitude {rlo:?}, expected {lo:?}", desc())
        });
    }
    c.cell(if e.sphere() { "sphere" } else { "ellipsoid" });
    if p.lon != 0. {
        c.cell("non-Greenwich prime meridian");
    }
    if axis {
        c.cell("on the polar axis");
        // every longitude denotes the point; the library chooses that of Greenwich
        let dlo = (rlo + p.lon).rem_euclid(2. * PI);
        c.within(dlo.min(2. * PI - dlo), 1e-14, "axis-longitude", || format!("{} -> longitude {rlo:?}", desc()));
    }
    if h < -1e6 {
        c.cell("deep below the surface");
    }
    if h > 1e6 {
        c.cell("space");
    }
    if x[2] == 0. {
        c.cell("equatorial plane");
    }
    if x[0] < 0. && x[1] == 0. {
        c.cell("antimeridian");
    }
    c.nontrivial();
    c.sample(|| format!("{} -> lon {rlo:?} lat {rla:?} h {rh:?}", desc()));
}

fn inv_random(c: &mut Case) {
    let e = ell_any(&mut c.rng);
    let p = pm_any(&mut c.rng);
    let (lo, la) = (lon(&mut c.rng), lat(&mut c.rng));
    let mut h = height(&mut c.rng);
    let hmin = -0.9 * max_depth(&e);
    if c.rng.chance(1, 12) {
        h = c.rng.range(hmin, 0.);
    }
    if c.rng.chance(1, 12) {
        h = c.rng.log(1e-6, 1e3) * e.a;
    }
    h = h.max(hmin);
    let axis = la.abs() == FRAC_PI_2 && c.rng.chance(1, 2);
    inv_case(c, &e, &p, lo, la, h, axis, None);
}

/// lattice of signs and zeros of x, y, z
fn inv_lattice(c: &mut Case) {
    let k = c.idx;
    let t = ell_table();
    let e = if k % 3 == 0 { wgs84() } else { t[(k as usize / 3) % t.len()].clone() };
    let p = pm_any(&mut c.rng);
    let s = [-1.0f64, 0.0, 1.0];
    let (sx, sy, sz) = (s[(k % 3) as usize], s[(k / 3 % 3) as usize], s[(k / 9 % 3) as usize]);
    let m = c.rng.range(0.05, 2.0) * e.a;
    let g = |c: &mut Case, s: f64| {
        if s == 0. {
            if c.rng.chance(1, 2) { 0. } else { -0. }
        } else {
            let w = match c.rng.below(3) {
                0 => 1.,
                1 => c.rng.log(1e-12, 1.),
                _ => c.rng.f(),
            };
            s * m * w
        }
    };
    let x = [g(c, sx), g(c, sy), g(c, sz)];
    // the reference foot point: Newton on the parametric latitude in the meridian plane
    let rho = x[0].hypot(x[1]);
    let z = x[2];
    let (la, h) = foot(e.a, e.b, rho, z);
    let lo_g = if rho == 0. { 0. } else { x[1].atan2(x[0]) };
    let mut lo = lo_g - p.lon;
    if lo > PI {
        lo -= 2. * PI
    } else if lo < -PI {
        lo += 2. * PI
    }
    inv_case(c, &e, &p, lo, la, h, rho == 0., Some(x));
}

/// geodetic latitude and height of a point of the meridian plane, by bisection on the
/// parametric latitude of the foot of the perpendicular (first quadrant).
pub fn foot(a: f64, b: f64, rho: f64, z: f64) -> (f64, f64) {
    let za = z.abs();
    let g = |t: f64| {
        let (s, co) = t.sin_cos();
        // derivative of the squared distance to (a cos t, b sin t)
        a * s * (rho - a * co) - b * co * (za - b * s)
    };
    // g < 0 at t=0 side, > 0 at pi/2 side
    let (mut lo, mut hi) = (0.0f64, FRAC_PI_2);
    for _ in 0..200 {
        let m = 0.5 * (lo + hi);
        if m == lo || m == hi {
            break;
        }
        if g(m) < 0. {
            lo = m
        } else {
            hi = m
        }
    }
    let t = 0.5 * (lo + hi);
    let (s, co) = t.sin_cos();
    let la = (a * s).atan2(b * co);
    let (sla, cla) = la.sin_cos();
    let h = (rho - a * co) * cla + (za - b * s) * sla;
    (if z < 0. { -la } else { la }, h)
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "execution = one llh_to_xyz call on a datum built from a well-known or random ellipsoid (spheres, strong flattening, unit size included) and a well-known or random prime meridian, at a longitude/latitude/height drawn from boundary values at many scales of proximity, round degrees and uniform values; monitored against the cartesian equation of the ellipsoid. Non-trivial: every one (distinct by ellipsoid, meridian and position).",
            assumptions: &["positions agree to 1e-14 of the geocentric distance scale (about 0.1 micrometre on Earth)"],
            must_see: &["sphere", "ellipsoid", "non-Greenwich prime meridian", "pole", "antimeridian", "beyond the centre"],
            streams: vec![
                Stream { name: "grid", quick: 46 * 37 * 25 * 2, thorough: 46 * 37 * 25 * 40, f: fwd_grid },
                Stream { name: "random", quick: 1_500_000, thorough: 60_000_000, f: fwd_random },
            ],
        },
        Property {
            id: "C02",
            rule: "execution = one xyz_to_llh call on a point whose geodetic position is known independently (constructed from it, or obtained by bisection for the foot of the perpendicular), over the same ellipsoids and meridians, heights from 90% of the smallest curvature radius below the surface to 1000 radii above it, and every sign/zero pattern of x, y, z; monitored for range, for denoting the same point in space, and for being the near-side foot point. Non-trivial: every one.",
            assumptions: &["domain: points farther from the centre than three times the extent of the ellipsoid's evolute (about 130 km on Earth) and than 1% of the semi-major axis; closer in, the geodetic position is not unique"],
            must_see: &["sphere", "ellipsoid", "non-Greenwich prime meridian", "on the polar axis", "equatorial plane", "antimeridian", "deep below the surface", "space"],
            streams: vec![
                Stream { name: "lattice", quick: 200_000, thorough: 5_000_000, f: inv_lattice },
                Stream { name: "random", quick: 1_000_000, thorough: 40_000_000, f: inv_random },
            ],
        },
    ]
}
