//! C03 wrapping, C04 latitudes, C07 units & quantities, C08 sexagesimal & text, C28 intervals.
use crate::gen::*;
use crate::mon::*;
use approx::AbsDiffEq;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::geocentric::XYZ;
use geokit::cs::cartesian::projected::ENH;
use geokit::cs::geodetic::{Lat, Lon, LLH};
use geokit::cs::s1::Interval;
use geokit::geodesy::geodesics::Geodesic;
use geokit::quantities::angle::Angle;
use geokit::quantities::length::Length;
use geokit::quantities::scale::PPM;
use geokit::units::angle::{DEG, RAD};
use geokit::units::length::M;
use std::f64::consts::{FRAC_PI_2, PI, TAU};

fn ulp(x: f64) -> f64 {
    let x = x.abs();
    if x == 0. {
        5e-324
    } else {
        x.next_up() - x
    }
}

/// circular distance between two angles in radians (arbitrary magnitude)
pub fn circ(a: f64, b: f64) -> f64 {
    let d = ((a % TAU) - (b % TAU)) % TAU;
    let d = d.abs();
    d.min((TAU - d).abs())
}

fn a(rad: f64) -> Angle {
    Angle::new(rad, RAD)
}

/// tolerance on an angle obtained from values of that magnitude
fn atol(mag: f64) -> f64 {
    4. * ulp(mag) + 2e-15
}

fn closed(x: f64) -> bool {
    x >= -PI && x <= PI
}
fn half_open(x: f64) -> bool {
    x > -PI && x <= PI
}

fn lon_ok(c: &mut Case, what: &'static str, l: Lon, exact: f64, mag: f64, ctx: &str) {
    lon_near(c, what, l, exact, mag, ctx);
    // the value is known exactly: one in range is left alone, up to the ends
    if closed(exact) {
        if exact.abs() == PI {
            c.cell("longitude at an end of the range");
        }
        let r = l.angle().rad();
        c.within((r - exact).abs(), 2e-15, what, || format!("{what}: {ctx} -> {r:?} rad, expected {exact:?}, which is in range"));
    }
}

fn lon_near(c: &mut Case, what: &'static str, l: Lon, exact: f64, mag: f64, ctx: &str) {
    let r = l.angle().rad();
    c.check(closed(r), what, || format!("{what}: {ctx} -> {r:?} is outside of [-pi, pi]"));
    c.within(circ(r, exact), atol(mag), what, || {
        format!("{what}: {ctx} -> {r:?} rad is not the same direction as {exact:?} rad")
    });
    if closed(exact) && exact.abs() <= PI - atol(mag) {
        // no spurious turn: a value in range is not moved
        c.within((r - exact).abs(), atol(mag), what, || format!("{what}: {ctx} -> {r:?} rad, expected {exact:?}"));
    }
    let n = l.normalized().angle().rad();
    c.check(half_open(n), "Lon::normalized", || format!("Lon {r:?} normalized -> {n:?} is outside of (-pi, pi]"));
    c.within(circ(n, r), 2e-15, "Lon::normalized", || format!("Lon {r:?} normalized -> {n:?}"));
    // same point, same normalized longitude
    if r == -PI {
        c.cell("longitude -pi");
    }
}

fn wrap_case(c: &mut Case) {
    let x = angle_any(&mut c.rng);
    let y = angle_any(&mut c.rng);
    let k = match c.rng.below(4) {
        0 => *c.rng.pick(&[-1., 2., -2., 0.5, 0., 3., 1e6]),
        1 => c.rng.log(1e-3, 1e6) * c.rng.sign(),
        _ => c.rng.range(-10., 10.),
    };
    c.hs(&[x, y, k]);
    let ctx = format!("x = {x:?}, y = {y:?}, k = {k:?}");
    if x.abs() > PI {
        c.cell("input outside of [-pi, pi]");
    }
    if x.abs() > 1e6 {
        c.cell("input of many turns");
    }
    let ok = c.call("panic", || ctx.clone(), || {
        let l = Lon::new(a(x));
        let mut l1 = l;
        l1 += a(y);
        let mut l2 = l;
        l2 -= a(y);
        let mut l3 = l;
        l3 *= k;
        let mut l4 = l;
        l4 /= k;
        let mut n = a(x);
        n.normalize();
        (
            l,
            [l + a(y), a(y) + l, l1],
            [l - a(y), l2],
            [l * k, k * l, l3],
            [l / k, l4],
            -l,
            Lon::rad(x),
            (a(x).normalized(), n),
            a(x).diff_to(a(y)),
            Lon::new(a(x)) - Lon::new(a(y)),
        )
    });
    let Some((l, add, sub, mul, div, neg, lr, (n1, n2), diff, ldiff)) = ok else { return };
    let lx = l.angle().rad();
    lon_ok(c, "Lon::new", l, x, x, &ctx);
    lon_ok(c, "Lon::rad", lr, x, x, &ctx);
    for v in add {
        lon_ok(c, "Lon + Angle", v, lx + y, y.abs().max(4.), &ctx);
    }
    for v in sub {
        lon_ok(c, "Lon - Angle", v, lx - y, y.abs().max(4.), &ctx);
    }
    for v in mul {
        lon_ok(c, "Lon * k", v, lx * k, (lx * k).abs().max(4.), &ctx);
    }
    if k != 0. {
        for v in div {
            lon_ok(c, "Lon / k", v, lx / k, (lx / k).abs().max(4.), &ctx);
        }
    }
    lon_ok(c, "-Lon", neg, -lx, 4., &ctx);
    for n in [n1.rad(), n2.rad()] {
        c.check(half_open(n), "normalized-range", || format!("{ctx}: x normalized -> {n:?} is outside of (-pi, pi]"));
        c.within(circ(n, x), atol(x), "normalized", || format!("{ctx}: x normalized -> {n:?}"));
        if half_open(x) {
            c.within((n - x).abs(), 2e-15, "normalized", || format!("{ctx}: x in range but normalized to {n:?}"));
        }
    }
    // oriented difference: from x to y
    let d = diff.rad();
    c.check(half_open(d), "diff-range", || format!("{ctx}: diff_to -> {d:?} is outside of (-pi, pi]"));
    let m = x.abs().max(y.abs());
    c.within(circ(x + d, y), 2. * atol(m), "diff_to", || format!("{ctx}: x turned by diff_to {d:?} is not y"));
    let ld = ldiff.rad();
    let ly = Lon::new(a(y)).angle().rad();
    c.check(half_open(ld), "diff-range", || format!("{ctx}: Lon difference {ld:?} is outside of (-pi, pi]"));
    c.within(circ(ly + ld, lx), 4e-15, "Lon - Lon", || format!("{ctx}: Lon(y) turned by Lon(x) - Lon(y) = {ld:?} is not Lon(x)"));
    c.nontrivial();
    c.sample(|| format!("{ctx}: Lon {lx:?}, normalized {:?}, diff_to {d:?}", n1.rad()));
}

fn azimuth_case(c: &mut Case) {
    let x = angle_any(&mut c.rng);
    let y = angle_any(&mut c.rng);
    c.hs(&[x, y]);
    let ctx = format!("x = {x:?}, y = {y:?}");
    let Some((z, zs, d)) = c.call("panic", || ctx.clone(), || {
        let z = Azimuth::new(a(x));
        let zy = Azimuth::new(a(y));
        (z, [Azimuth::rad(x), z + a(y), a(y) + z], zy - z)
    }) else {
        return;
    };
    let zx = z.angle().rad();
    let zy = Azimuth::new(a(y)).angle().rad();
    for (v, e, m) in [(z, x, x), (zs[0], x, x), (zs[1], zx + y, y.abs().max(4.)), (zs[2], zx + y, y.abs().max(4.))] {
        let r = v.angle().rad();
        c.check(half_open(r), "azimuth-range", || format!("{ctx}: azimuth {r:?} is outside of (-pi, pi]"));
        c.within(circ(r, e), atol(m), "azimuth", || format!("{ctx}: azimuth {r:?}, expected direction {e:?}"));
    }
    let d = d.rad();
    c.check(half_open(d), "azimuth-diff", || format!("{ctx}: azimuth difference {d:?} is outside of (-pi, pi]"));
    c.within(circ(zx + d, zy), 4e-15, "azimuth-diff", || format!("{ctx}: Azimuth(x) turned by Azimuth(y)-Azimuth(x) = {d:?} is not Azimuth(y)"));
    for (z, e) in [(Azimuth::NORTH, 0.), (Azimuth::EAST, FRAC_PI_2), (Azimuth::SOUTH, PI), (Azimuth::WEST, -FRAC_PI_2)] {
        c.within((z.angle().rad() - e).abs(), 1e-15, "azimuth-const", || format!("cardinal direction {z:?}"));
    }
    c.cell("azimuth");
    c.nontrivial();
}

/// degrees and sexagesimal constructors
fn dms_ctor(c: &mut Case) {
    let m = if c.rng.chance(1, 3) { *c.rng.pick(&[0., 59., 30.]) } else { c.rng.below(60) as f64 };
    let s = match c.rng.below(4) {
        0 => 0.,
        1 => 60f64.next_down(),
        2 => c.rng.below(60) as f64,
        _ => c.rng.range(0., 60.),
    };
    let d = if c.rng.chance(1, 8) {
        *c.rng.pick(&[0., -0., 179., -179., 90., -90., -1., 1.])
    } else {
        c.rng.below(359) as f64 - 179.
    };
    c.hs(&[d, m, s]);
    let ctx = format!("dms({d:?}, {m:?}, {s:?})");
    let v = (d.abs() + (m + s / 60.) / 60.).copysign(d) * D2R;
    let Some((lo, az)) = c.call("panic", || ctx.clone(), || (Lon::dms(d, m, s), Azimuth::dms(d, m, s))) else { return };
    lon_near(c, "Lon::dms", lo, v, 4., &ctx);
    c.within(circ(az.angle().rad(), v), atol(4.), "Azimuth::dms", || format!("{ctx} -> {az:?}, expected {v:?}"));
    c.check(half_open(az.angle().rad()), "azimuth-range", || format!("{ctx} -> {az:?}"));
    let x = angle_any(&mut c.rng) / D2R;
    if x.is_finite() {
        let Some((lo, az)) = c.call("panic", || format!("deg({x:?})"), || (Lon::deg(x), Azimuth::deg(x))) else { return };
        let e = x * D2R;
        if e.is_finite() {
            lon_near(c, "Lon::deg", lo, e, e, &format!("deg {x:?}"));
            let z = az.angle().rad();
            c.check(half_open(z), "azimuth-range", || format!("Azimuth::deg({x:?}) -> {z:?}"));
            c.within(circ(z, e), atol(e), "Azimuth::deg", || format!("Azimuth::deg({x:?}) -> {z:?}, expected {e:?}"));
        }
    }
    c.cell("sexagesimal");
    c.nontrivial();
}

/// tolerance comparisons on the circle
fn circ_eq(c: &mut Case) {
    let x = angle_any(&mut c.rng);
    let x = if x.abs() > 1e6 { x % TAU } else { x };
    let eps = c.rng.log(1e-13, 3.0);
    let off = match c.rng.below(3) {
        0 => eps * c.rng.range(0.5, 1.5) * c.rng.sign(),
        1 => c.rng.log(1e-14, PI) * c.rng.sign(),
        _ => c.rng.range(-PI, PI),
    };
    let y = x + off + TAU * (c.rng.below(3) as f64 - 1.);
    c.hs(&[x, y, eps]);
    let Some((l, z)) = c.call("panic", || format!("abs_diff_eq {x:?} {y:?} {eps:?}"), || {
        (
            Lon::new(a(x)).abs_diff_eq(&Lon::new(a(y)), a(eps)),
            Azimuth::new(a(x)).abs_diff_eq(&Azimuth::new(a(y)), a(eps)),
        )
    }) else {
        return;
    };
    let d = circ(x, y);
    let slop = 8. * ulp(x.abs().max(10.));
    if (d - eps).abs() > slop {
        let e = d < eps;
        c.check(l == e, "Lon-abs_diff_eq", || format!("Lon({x:?}) ~ Lon({y:?}) within {eps:?} gave {l}, circular distance {d:?}"));
        c.check(z == e, "Azimuth-abs_diff_eq", || format!("Azimuth({x:?}) ~ Azimuth({y:?}) within {eps:?} gave {z}, circular distance {d:?}"));
        c.cell(if e { "close on the circle" } else { "far on the circle" });
        if e && (Lon::new(a(x)).angle().rad() - Lon::new(a(y)).angle().rad()).abs() > 3. {
            c.cell("close across the antimeridian");
        }
        c.nontrivial();
    }
}

// ---------------------------------------------------------------- C04

fn lat_case(c: &mut Case) {
    let x = match c.rng.below(3) {
        0 => lat(&mut c.rng),
        1 => angle_any(&mut c.rng),
        _ => {
            let b = *c.rng.pick(&[FRAC_PI_2, -FRAC_PI_2]);
            if c.rng.chance(1, 2) {
                nudge(&mut c.rng, b)
            } else {
                b + c.rng.log(1e-16, 10.) * c.rng.sign()
            }
        }
    };
    let y = if c.rng.chance(1, 4) { angle_any(&mut c.rng) } else { c.rng.range(-4., 4.) };
    let k = match c.rng.below(8) {
        0 => *c.rng.pick(&[0.5, -1., 2., 1., 1e9, 1e-9]),
        1 => c.rng.log(1e-300, 1e300) * c.rng.sign(),
        _ => c.rng.range(-5., 5.),
    };
    let x = if c.rng.chance(1, 8) { c.rng.log(1e-320, 1e-10) * c.rng.sign() } else { x };
    c.hs(&[x, y, k]);
    let ctx = format!("x = {x:?}, y = {y:?}, k = {k:?}");
    let cl = |v: f64| {
        if v > FRAC_PI_2 {
            FRAC_PI_2
        } else if v < -FRAC_PI_2 {
            -FRAC_PI_2
        } else {
            v
        }
    };
    let Some((l, v)) = c.call("panic", || ctx.clone(), || {
        let l = Lat::new(a(x));
        let mut l1 = l;
        l1 += a(y);
        let mut l2 = l;
        l2 -= a(y);
        let mut l3 = l;
        l3 *= k;
        let mut l4 = l;
        l4 /= k;
        let lx = l.angle().rad();
        (
            l,
            vec![
                ("Lat::new", l, x),
                ("Lat + Angle", l + a(y), lx + y),
                ("Angle + Lat", a(y) + l, lx + y),
                ("Lat += Angle", l1, lx + y),
                ("Lat - Angle", l - a(y), lx - y),
                ("Lat -= Angle", l2, lx - y),
                ("Lat * k", l * k, lx * k),
                ("k * Lat", k * l, lx * k),
                ("Lat *= k", l3, lx * k),
                ("Lat / k", l / k, lx / k),
                ("Lat /= k", l4, lx / k),
                ("-Lat", -l, -lx),
                ("Lat::abs", l.abs(), lx.abs()),
                ("Lat::deg", Lat::deg(x / D2R), (x / D2R) * D2R),
            ],
        )
    }) else {
        return;
    };
    let _ = l;
    for (w, v, e) in v {
        if e.is_nan() {
            continue;
        }
        let r = v.angle().rad();
        c.check((-FRAC_PI_2..=FRAC_PI_2).contains(&r), "lat-range", || format!("{w}: {ctx} -> {r:?} is beyond a pole"));
        // one rounded operation: a few ulp of the result itself, however small it is
        let tol = 4. * ulp(e.abs().min(10.)) + if w == "Lat::deg" { 1e-15 } else { 0. };
        if e != 0. && e.abs() < 1e-100 {
            c.cell("next to the equator");
        }
        c.within((r - cl(e)).abs(), tol, "lat-value", || {
            format!("{w}: {ctx} -> {r:?}, expected {:?} (saturated {e:?})", cl(e))
        });
        if e > FRAC_PI_2 {
            c.cell("saturated north");
        } else if e < -FRAC_PI_2 {
            c.cell("saturated south");
        } else {
            c.cell("not saturated");
        }
    }
    // differences are plain, comparisons are not circular
    let z = lat(&mut c.rng);
    let (p, q) = (Lat::new(a(x)), Lat::new(a(z)));
    let d = (p - q).rad();
    let e = cl(x) - z;
    c.within((d - e).abs(), 1e-15, "lat-diff", || format!("Lat({x:?}) - Lat({z:?}) = {d:?}, expected {e:?}"));
    let eps = c.rng.log(1e-13, 3.);
    if (e.abs() - eps).abs() > 2e-15 {
        c.check(p.abs_diff_eq(&q, a(eps)) == (e.abs() < eps), "lat-abs_diff_eq", || {
            format!("Lat({x:?}) ~ Lat({z:?}) within {eps:?}: difference {e:?}")
        });
    }
    c.check((p < q) == (cl(x) < z) || (cl(x) - z).abs() < 1e-15, "lat-order", || format!("order of Lat({x:?}) and Lat({z:?})"));
    // sexagesimal
    let (dd, mm) = (c.rng.below(181) as f64 - 90., c.rng.below(60) as f64);
    let dd = if dd == 0. { 0f64.copysign(c.rng.sign()) } else { dd };
    let ss = if c.rng.chance(1, 3) { 0. } else { c.rng.range(0., 60.) };
    let e = cl((dd.abs() + (mm + ss / 60.) / 60.).copysign(dd) * D2R);
    if let Some(v) = c.call("panic", || format!("Lat::dms({dd:?},{mm:?},{ss:?})"), || Lat::dms(dd, mm, ss)) {
        let r = v.angle().rad();
        c.within((r - e).abs(), 1e-15, "lat-dms", || format!("Lat::dms({dd:?},{mm:?},{ss:?}) -> {r:?}, expected {e:?}"));
    }
    c.nontrivial();
    c.sample(|| format!("{ctx}: Lat {:?}", p.angle().rad()));
}

// ---------------------------------------------------------------- C07

fn rel(a: f64, b: f64) -> f64 {
    if a == b {
        0.
    } else {
        (a - b).abs() / a.abs().max(b.abs()).max(1e-290)
    }
}

const E: f64 = f64::EPSILON;

fn mag(c: &mut Case) -> f64 {
    match c.rng.below(8) {
        0 => *c.rng.pick(&[0., -0., 1., -1., 0.1, 1000., 6378137., 1e-9]),
        1 => c.rng.log(1e-100, 1e100) * c.rng.sign(),
        2 => c.rng.log(1e-9, 1e9) * c.rng.sign(),
        _ => c.rng.range(-1e4, 1e4),
    }
}

fn units_case(c: &mut Case) {
    let n = mag(c);
    let m = mag(c);
    let k = {
        let k = mag(c);
        if k == 0. {
            2.
        } else {
            k
        }
    };
    let (lu, lf, lid) = length_unit(&mut c.rng);
    let (lu2, lf2, lid2) = length_unit(&mut c.rng);
    let (au, af, aid) = angle_unit(&mut c.rng);
    let (au2, af2, aid2) = angle_unit(&mut c.rng);
    c.hs(&[n, m, k, lf, lf2, af, af2]);
    if lid != lid2 {
        c.cell("two length units");
    }
    if aid != aid2 {
        c.cell("two angle units");
    }
    for id in [lid, lid2, aid, aid2] {
        c.cell(id);
    }
    let ctx = format!("n = {n:?}, m = {m:?}, k = {k:?}, length units {lid} {lid2}, angle units {aid} {aid2}");
    let Some(()) = c.call("panic", || ctx.clone(), || ()) else { return };
    let eq = |c: &mut Case, key: &'static str, got: f64, exp: f64, tol: f64| {
        c.within(rel(got, exp), tol, key, || format!("{key}: {ctx}: got {got:?}, expected {exp:?}"));
    };
    // lengths
    let l = n * lu;
    let l2 = m * lu2;
    eq(c, "length-new", Length::new(n, lu).m(), n * lf, 4. * E);
    eq(c, "length-new", l.m(), n * lf, 4. * E);
    eq(c, "length-new", (lu * n).m(), n * lf, 4. * E);
    eq(c, "length-factor", lu.m_per_unit(), lf, 2. * E);
    eq(c, "length-val", l.val(lu), n, 4. * E);
    eq(c, "length-val", l.val(lu2), n * lf / lf2, 6. * E);
    eq(c, "length-val", l.val(M), n * lf, 4. * E);
    eq(c, "length-abs", l.abs().m(), (n * lf).abs(), 4. * E);
    let (x, y) = (l.m(), l2.m());
    eq(c, "length-add", (l + l2).m(), x + y, E);
    eq(c, "length-sub", (l - l2).m(), x - y, E);
    let mut t = l;
    t += l2;
    eq(c, "length-add", t.m(), x + y, E);
    let mut t = l;
    t -= l2;
    eq(c, "length-sub", t.m(), x - y, E);
    eq(c, "length-scale", (l * k).m(), x * k, 2. * E);
    eq(c, "length-scale", (k * l).m(), x * k, 2. * E);
    let mut t = l;
    t *= k;
    eq(c, "length-scale", t.m(), x * k, 2. * E);
    eq(c, "length-div", (l / k).m(), x / k, 2. * E);
    let mut t = l;
    t /= k;
    eq(c, "length-div", t.m(), x / k, 2. * E);
    if y != 0. {
        eq(c, "length-ratio", l / l2, x / y, 2. * E);
    }
    eq(c, "length-hypot", l.hypot(l2).m(), x.hypot(y), 4. * E);
    eq(c, "length-atan2", l.atan2(l2).rad(), x.atan2(y), 4. * E);
    c.check((l < l2) == (x < y) && (l == l2) == (x == y), "length-order", || format!("{ctx}: {l:?} {l2:?}"));
    // angles
    let p = n * au;
    let q = m * au2;
    eq(c, "angle-new", p.rad(), n * af, 4. * E);
    eq(c, "angle-new", Angle::new(n, au).rad(), n * af, 4. * E);
    eq(c, "angle-new", (au * n).rad(), n * af, 4. * E);
    eq(c, "angle-factor", au.rad_per_unit(), af, 2. * E);
    eq(c, "angle-val", p.val(au), n, 6. * E);
    eq(c, "angle-val", p.val(au2), n * af / af2, 8. * E);
    eq(c, "angle-val", p.val(RAD), n * af, 4. * E);
    let (x, y) = (p.rad(), q.rad());
    eq(c, "angle-add", (p + q).rad(), x + y, E);
    eq(c, "angle-sub", (p - q).rad(), x - y, E);
    let mut t = p;
    t += q;
    eq(c, "angle-add", t.rad(), x + y, E);
    let mut t = p;
    t -= q;
    eq(c, "angle-sub", t.rad(), x - y, E);
    eq(c, "angle-neg", (-p).rad(), -x, E);
    eq(c, "angle-abs", p.abs().rad(), x.abs(), E);
    eq(c, "angle-scale", (p * k).rad(), x * k, 2. * E);
    eq(c, "angle-scale", (k * p).rad(), x * k, 2. * E);
    let mut t = p;
    t *= k;
    eq(c, "angle-scale", t.rad(), x * k, 2. * E);
    eq(c, "angle-div", (p / k).rad(), x / k, 2. * E);
    let mut t = p;
    t /= k;
    eq(c, "angle-div", t.rad(), x / k, 2. * E);
    c.check((p < q) == (x < y) && (p == q) == (x == y), "angle-order", || format!("{ctx}: {p:?} {q:?}"));
    if x != 0. {
        c.check(p.signum() == x.signum(), "angle-signum", || format!("{ctx}: {p:?}"));
    }
    // trigonometry of angles, longitudes, latitudes and azimuths
    let lo = Lon::new(p);
    let la = Lat::new(p);
    let az = Azimuth::new(p);
    if lo.angle().rad() != 0. && la.angle().rad() != 0. {
        let (sl, sp) = (lo.signum(), la.signum());
        c.check(sl == lo.angle().rad().signum() && sp == la.angle().rad().signum(), "lon-lat-signum", || format!("{ctx}: {lo:?} {sl:?} {la:?} {sp:?}"));
    }
    type Trig = (&'static str, f64, f64, f64, (f64, f64), f64);
    let rows: [Trig; 4] = [
        ("angle", x, p.sin(), p.cos(), p.sin_cos(), p.tan()),
        ("lon", lo.angle().rad(), lo.sin(), lo.cos(), lo.sin_cos(), lo.tan()),
        ("lat", la.angle().rad(), la.sin(), la.cos(), la.sin_cos(), la.tan()),
        ("azimuth", az.angle().rad(), az.sin(), az.cos(), az.sin_cos(), az.tan()),
    ];
    for (w, x, s, co, sc, t) in rows {
        let e = (s - x.sin()).abs().max((co - x.cos()).abs()).max((sc.0 - x.sin()).abs()).max((sc.1 - x.cos()).abs());
        c.within(e, 1e-15, "trigonometry", || format!("{w} {x:?}: sin {s:?} cos {co:?} sin_cos {sc:?}"));
        c.within(rel(t, x.tan()), 4. * E, "trigonometry", || format!("{w} {x:?}: tan {t:?}"));
    }
    // arc length = radius x angle, and back
    let al = (l * q).length();
    let al2 = (q * l).length();
    eq(c, "arc-length", al.m(), l.m() * q.rad(), 2. * E);
    eq(c, "arc-length", al2.m(), l.m() * q.rad(), 2. * E);
    if l.m() != 0. && al.m() != 0. && al.m().abs() > 1e-200 && al.m().abs() < 1e200 {
        eq(c, "arc-angle", ((l * q) / l).rad(), q.rad(), 4. * E);
    }
    // tolerance comparison of lengths and angles
    let eps = c.rng.log(1e-6, 1e3);
    let off = eps * c.rng.range(0., 2.);
    let b = c.rng.range(-1e4, 1e4);
    if (off - eps).abs() > 1e-11 {
        c.check((b * M).abs_diff_eq(&((b + off) * M), eps * M) == (off < eps), "length-abs_diff_eq", || {
            format!("{b:?} m ~ {:?} m within {eps:?}", b + off)
        });
        c.check(a(b).abs_diff_eq(&a(b - off), a(eps)) == (off < eps), "angle-abs_diff_eq", || {
            format!("{b:?} rad ~ {:?} rad within {eps:?}", b - off)
        });
    }
    // parts per million
    let ppm = if c.rng.chance(1, 5) { 0. } else { c.rng.log(1e-6, 1e3) * c.rng.sign() };
    let (f, g) = (PPM(ppm).factor(), PPM(ppm).inv_factor());
    c.within((f - (1. + ppm * 1e-6)).abs(), 4. * E, "ppm-factor", || format!("PPM({ppm:?}) -> {f:?}"));
    let t = ppm * 1e-6;
    c.within((f * g - 1.).abs(), t * t * 1.01 + 4. * E, "ppm-inverse", || format!("PPM({ppm:?}): factor {f:?} x inverse {g:?}"));
    c.nontrivial();
    c.sample(|| format!("{ctx}: {l:?} {p:?}"));
}

fn const_case(c: &mut Case) {
    let t: &[(&str, f64, f64)] = &[
        ("Angle::TINY", Angle::TINY.rad(), 1e-12),
        ("Angle::SMALL", Angle::SMALL.rad(), 1e-9),
        ("Angle::ZERO", Angle::ZERO.rad(), 0.),
        ("Angle::PI", Angle::PI.rad(), PI),
        ("Angle::PI_2", Angle::PI_2.rad(), FRAC_PI_2),
        ("Angle::M_PI", Angle::M_PI.rad(), -PI),
        ("Angle::M_PI_2", Angle::M_PI_2.rad(), -FRAC_PI_2),
        ("Angle::TWO_PI", Angle::TWO_PI.rad(), TAU),
        ("Angle default epsilon", Angle::default_epsilon().rad(), 1e-12),
        ("Length::TINY", Length::TINY.m(), 1e-4),
        ("Length::SMALL", Length::SMALL.m(), 1e-3),
        ("Length::ZERO", Length::ZERO.m(), 0.),
        ("Length default epsilon", Length::default_epsilon().m(), 1e-4),
        ("1 DEG", (1. * DEG).rad(), PI / 180.),
        ("1 GRAD", (1. * geokit::units::angle::GRAD).rad(), PI / 200.),
        ("1 SEC", (1. * geokit::units::angle::SEC).rad(), PI / 648000.),
        ("1 FT", (1. * geokit::units::length::FT).m(), 0.3048),
        ("1 US_FT", (1. * geokit::units::length::US_FT).m(), 1200. / 3937.),
        ("Lon::MIN", Lon::MIN.angle().rad(), -PI),
        ("Lon::MAX", Lon::MAX.angle().rad(), PI),
        ("Lat::MIN", Lat::MIN.angle().rad(), -FRAC_PI_2),
        ("Lat::MAX", Lat::MAX.angle().rad(), FRAC_PI_2),
    ];
    let (n, g, e) = t[c.idx as usize % t.len()];
    c.hu(c.idx);
    c.within(rel(g, e), 4. * E, "constant", || format!("{n} = {g:?}, expected {e:?}"));
    c.cell("constants");
    c.nontrivial();
}

// ---------------------------------------------------------------- C08

/// all the numbers written in a text, in order
pub fn numbers(s: &str) -> Vec<f64> {
    let b: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let st = i;
        let mut j = i;
        if (b[j] == '-' || b[j] == '+') && j + 1 < b.len() && b[j + 1].is_ascii_digit() {
            j += 1;
        }
        if b[j].is_ascii_digit() && (st == 0 || !b[st - 1].is_alphanumeric() || st != j) {
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == '.') {
                j += 1;
            }
            if j + 1 < b.len() && (b[j] == 'e' || b[j] == 'E') {
                let mut k = j + 1;
                if b[k] == '-' || b[k] == '+' {
                    k += 1;
                }
                if k < b.len() && b[k].is_ascii_digit() {
                    while k < b.len() && b[k].is_ascii_digit() {
                        k += 1;
                    }
                    j = k;
                }
            }
            let t: String = b[st..j].iter().collect();
            if let Ok(v) = t.parse::<f64>() {
                out.push(v);
            }
            i = j;
        } else {
            i += 1;
        }
    }
    out
}

fn recompose(d: f64, m: f64, s: f64) -> f64 {
    (d.abs() + (m + s / 60.) / 60.).copysign(d)
}

/// an angle close to a whole number of seconds/minutes/degrees, or any
fn dms_angle(c: &mut Case) -> f64 {
    let r = &mut c.rng;
    let deg = match r.below(8) {
        0 => r.below(361) as f64 - 180.,
        1 => (r.below(21601) as f64 - 10800.) / 60.,
        2 => (r.below(1296001) as f64 - 648000.) / 3600.,
        3 => r.below(361) as f64 - 180. + r.log(1e-14, 1e-2) * r.sign(),
        4 => (r.below(21601) as f64 - 10800.) / 60. + r.log(1e-14, 1e-2) * r.sign(),
        5 => r.log(1e-12, 1.) * r.sign(),
        6 => lon(r) / D2R,
        _ => r.range(-720., 720.),
    };
    nudge(r, deg * D2R)
}

fn dms_case(c: &mut Case) {
    let x = dms_angle(c);
    c.hs(&[x]);
    let Some(v) = c.call("panic", || format!("dms of {x:?}"), || a(x).dms()) else { return };
    let (d, m, s) = (v.deg(), v.min(), v.sec());
    let deg = x / D2R;
    let ctx = format!("{x:?} rad = {deg:?} deg -> {d:?} {m:?} {s:?}");
    c.check(m.fract() == 0. && (0. ..=59.).contains(&m), "dms-minutes", || format!("{ctx}: minutes not an integer in 0..=59"));
    c.check((0. ..60.).contains(&s), "dms-seconds", || format!("{ctx}: seconds not in [0, 60)"));
    c.check(d.fract() == 0., "dms-degrees", || format!("{ctx}: degrees not whole"));
    if deg.abs() > 1e-9 {
        c.check(d.is_sign_negative() == (x < 0.), "dms-sign", || format!("{ctx}: sign lost"));
        if d == 0. && x < 0. {
            c.cell("negative angle of less than a degree");
        }
    }
    let back = recompose(d, m, s);
    c.within((back - deg).abs(), 2e-10 + 4e-14, "dms-value", || format!("{ctx} recomposes to {back:?} deg"));
    if s == 0. && deg.fract() != 0. {
        c.cell("snapped to a whole minute");
    }
    // printed text
    let t = format!("{v}");
    let n = numbers(&t);
    if c.check(n.len() == 3, "dms-text", || format!("{ctx} printed as {t:?}: expected three numbers")) {
        let neg = t.trim_start().starts_with('-');
        let b = (n[0].abs() + (n[1] + n[2] / 60.) / 60.) * if neg { -1. } else { 1. };
        c.within((b - deg).abs(), 2.1e-10, "dms-text", || format!("{ctx} printed as {t:?}, which reads {b:?} deg"));
    }
    // round trip through the constructors
    if d > -180. && d < 180. {
        if let Some(l) = c.call("panic", || ctx.clone(), || Lon::dms(d, m, s)) {
            c.within(circ(l.angle().rad(), x), 4e-12, "dms-roundtrip", || format!("{ctx}: Lon::dms of it is {:?} rad", l.angle().rad()));
        }
    }
    c.cell("dms");
    c.nontrivial();
    c.sample(|| format!("{ctx} {t:?}"));
}

fn exact(c: &mut Case, key: &'static str, t: &str, exp: &[f64]) {
    let n = numbers(t);
    let ok = n.len() == exp.len() && n.iter().zip(exp).all(|(a, b)| rel(*a, *b) < 4. * E);
    c.check(ok, key, || format!("{key}: printed {t:?}, expected the values {exp:?} in that order"));
}

fn text_case(c: &mut Case) {
    let x = if c.rng.chance(1, 3) { dms_angle(c) } else { c.rng.log(1e-8, 1e8) * c.rng.sign() };
    let (lo, la, h) = (lon(&mut c.rng), lat(&mut c.rng), height(&mut c.rng));
    c.hs(&[x, lo, la, h]);
    let mut val = |c: &mut Case| match c.rng.below(4) {
        0 => c.rng.log(1e-6, 1e7) * c.rng.sign(),
        1 => any_finite(&mut c.rng),
        _ => c.rng.range(-7e6, 7e6),
    };
    let (vx, vy, vz) = (val(c), val(c), val(c));
    exact(c, "text-angle", &format!("{}", a(x)), &[a(x).rad()]);
    exact(c, "text-angle", &format!("{:e}", a(x)), &[a(x).rad()]);
    exact(c, "text-deg", &format!("{}", a(x).deg()), &[a(x).val(DEG)]);
    exact(c, "text-deg", &format!("{:e}", a(x).deg()), &[a(x).val(DEG)]);
    exact(c, "text-length", &format!("{}", x * M), &[x]);
    exact(c, "text-length", &format!("{}", vx * M), &[vx]);
    exact(c, "text-angle", &format!("{}", a(vy)), &[vy]);
    let (glo, gla) = (mk_lon(lo), mk_lat(la));
    exact(c, "text-lon", &format!("{glo}"), &[glo.angle().val(DEG)]);
    exact(c, "text-lat", &format!("{gla}"), &[gla.angle().val(DEG)]);
    let p = LLH { lon: glo, lat: gla, height: h * M };
    exact(c, "text-llh", &format!("{p}"), &[glo.angle().val(DEG), gla.angle().val(DEG), h]);
    exact(c, "text-xyz", &format!("{}", XYZ { x: vx * M, y: vy * M, z: vz * M }), &[vx, vy, vz]);
    exact(c, "text-enh", &format!("{}", ENH { easting: vx * M, northing: vy * M, height: vz * M }), &[vx, vy, vz]);
    // azimuth as sexagesimal
    let z = Azimuth::new(a(x));
    let t = format!("{z}");
    let read = |t: &str| {
        let n = numbers(t);
        if n.len() == 3 {
            (n[0].abs() + (n[1] + n[2] / 60.) / 60.) * if t.trim_start().starts_with('-') { -1. } else { 1. }
        } else {
            f64::NAN
        }
    };
    c.within((read(&t) - z.angle().rad() / D2R).abs(), 2.1e-10, "text-azimuth", || format!("azimuth {z:?} printed as {t:?}"));
    // prime meridian and ellipsoid
    let pm = pm_of(lo);
    let t = format!("{}", pm.pm);
    let b = t.split("lon =").nth(1).map(read).unwrap_or(f64::NAN);
    c.within(circ(b * D2R, lo), 4e-12, "text-prime-meridian", || format!("prime meridian at {lo:?} rad printed as {t:?}"));
    c.check(t.contains(pm.pm.name()), "text-prime-meridian", || format!("name lost in {t:?}"));
    let e = ell_any(&mut c.rng);
    let t = format!("{}", e.e);
    let n = numbers(t.split("a =").nth(1).unwrap_or(""));
    let ok = n.len() >= 2 && rel(n[0], e.e.a().m()) < 4. * E && rel(n[1], e.e.b().m()) < 4. * E && (e.e.invf().is_infinite() || (n.len() == 3 && rel(n[2], e.e.invf()) < 4. * E));
    c.check(ok, "text-ellipsoid", || format!("ellipsoid a={:?} b={:?} invf={:?} printed as {t:?}", e.e.a(), e.e.b(), e.e.invf()));
    c.check(t.contains(e.e.name()), "text-ellipsoid", || format!("name lost in {t:?}"));
    let d = datum(&e, &pm);
    let t = format!("{d}");
    c.check(t.contains(&format!("{}", e.e)) && t.contains(&format!("{}", pm.pm)) && t.contains(d.id()), "text-datum", || format!("datum printed as {t:?}"));
    // geodesic segment: six coordinates, longitude difference and length
    let (lo2, la2) = (mk_lon(lon(&mut c.rng)), mk_lat(lat(&mut c.rng)));
    let z2 = Azimuth::new(a(angle_any(&mut c.rng)));
    let g = Geodesic { p1: (glo, gla), alpha1: z, p2: (lo2, la2), alpha2: z2, s: vx.abs() * M };
    let t = format!("{g}");
    let n = numbers(&t);
    if c.check(n.len() == 12, "text-geodesic", || format!("geodesic printed as {t:?}")) {
        let e = [glo.angle().val(DEG), gla.angle().val(DEG), lo2.angle().val(DEG), la2.angle().val(DEG), vx.abs()];
        let got = [n[0], n[1], n[5], n[6], n[11]];
        c.check(e.iter().zip(&got).all(|(a, b)| rel(*a, *b) < 4. * E), "text-geodesic", || {
            format!("geodesic {g:?} printed as {t:?}: reads {got:?}, expected {e:?}")
        });
        let azs: Vec<f64> = t.split("az: ").skip(1).map(|x| read(x.split(')').next().unwrap_or(""))).collect();
        if c.check(azs.len() == 2, "text-geodesic", || format!("geodesic printed as {t:?}: expected two azimuths")) {
            for (b, z) in azs.iter().zip([z, z2]) {
                c.within((b - z.angle().rad() / D2R).abs(), 2.1e-10, "text-geodesic-azimuth", || format!("geodesic {g:?} printed as {t:?}"));
            }
        }
        c.within(circ(n[10], (lo2.angle() - glo.angle()).rad()), 1e-12, "text-geodesic", || format!("longitude difference in {t:?}"));
    }
    c.cell("text");
    c.nontrivial();
    c.sample(|| format!("{p} {t:?}"));
}

// ---------------------------------------------------------------- C28

fn interval_case(c: &mut Case) {
    let lo = angle_any(&mut c.rng);
    let hi = angle_any(&mut c.rng);
    let (lo, hi) = match c.rng.below(8) {
        0 => (*c.rng.pick(&[PI, -PI]), *c.rng.pick(&[PI, -PI])),
        1 => (lo, *c.rng.pick(&[PI, -PI])),
        2 => (*c.rng.pick(&[PI, -PI]), hi),
        3 => (lo, lo),
        _ => (lo, hi),
    };
    c.hs(&[lo, hi]);
    let ctx = format!("[{lo:?} .. {hi:?}]");
    let Some((i, len)) = c.call("panic", || ctx.clone(), || {
        let i = Interval::new(a(lo), a(hi));
        (i, i.length().rad())
    }) else {
        return;
    };
    // where the bounds lie on the circle
    let w = |x: f64| Lon::new(a(x)).angle().rad();
    let (wl, wh) = (w(lo), w(hi));
    let slack = 8. * ulp(lo.abs().max(hi.abs())) + 4e-15;
    c.check((0. ..=TAU).contains(&len), "length-range", || format!("{ctx}: length {len:?} is not in [0, 2pi]"));
    if wl == -PI && wh == PI {
        c.check(i.is_full() && !i.is_empty() && i == Interval::full(), "full", || format!("{ctx} is the full circle but gave {i}"));
        c.within((len - TAU).abs(), 4e-15, "full", || format!("{ctx}: length {len:?}"));
        c.cell("full");
    } else if wl == PI && wh == -PI {
        c.check(i.is_empty() && !i.is_full() && i == Interval::empty(), "empty", || format!("{ctx} is the empty interval but gave {i}"));
        c.within(len, 4e-15, "empty", || format!("{ctx}: length {len:?}"));
        c.cell("empty");
    } else {
        c.check(!i.is_empty() && !i.is_full(), "proper", || format!("{ctx} is neither empty nor full but gave {i}"));
        let e = (wh - wl).rem_euclid(TAU);
        // a degenerate interval and (almost) a full turn meet at 0 = 2 pi
        let tol = slack;
        let err = (len - e).abs();
        let err = if e < tol || e > TAU - tol { err.min((TAU - err).abs()) } else { err };
        c.within(err, tol, "length", || format!("{ctx}: length {len:?}, expected {e:?}"));
        c.cell(if wl > wh { "through the antimeridian" } else { "ordinary" });
        if circ(lo, hi) == 0. && wl == wh {
            c.check(len == 0., "singleton", || format!("{ctx}: length {len:?} of a single point"));
        }
        // -pi and pi are the same point
        if wl.abs() == PI && wh.abs() != PI {
            c.check(Interval::new(a(PI), a(hi)) == Interval::new(a(-PI), a(hi)), "same-point", || format!("{ctx}: bounds pi and -pi differ"));
            c.cell("bound on the antimeridian");
        }
        if wh.abs() == PI && wl.abs() != PI {
            c.check(Interval::new(a(lo), a(PI)) == Interval::new(a(lo), a(-PI)), "same-point", || format!("{ctx}: bounds pi and -pi differ"));
        }
        if wl == -PI && wh == -PI {
            c.check(i == Interval::singleton(a(PI)), "same-point", || format!("{ctx} is the single antimeridian point but gave {i}"));
            c.cell("[-pi..-pi]");
        }
    }
    if let Some(s) = c.call("panic", || format!("singleton({lo:?})"), || Interval::singleton(a(lo))) {
        c.check(!s.is_empty() && !s.is_full(), "singleton", || format!("singleton({lo:?}) = {s} is empty or full"));
        c.check(s.length().rad() == 0., "singleton", || format!("singleton({lo:?}) has length {:?}", s.length()));
        // the single point interval built from its two bounds is the same interval, and -pi is pi
        let b = Interval::new(a(lo), a(lo));
        c.check(s == b, "singleton", || format!("singleton({lo:?}) = {s} differs from [{lo:?} .. {lo:?}] = {b}"));
        let (m, p) = (Interval::singleton(a(-PI)), Interval::singleton(a(PI)));
        c.check(m == p && (wl.abs() != PI || s == p), "same-point", || format!("single points -pi, pi and {lo:?}: {m}, {p}, {s}"));
    }
    c.check(Interval::empty().is_empty() && !Interval::empty().is_full() && Interval::empty().length().rad().abs() < 4e-15, "empty", || "empty()".into());
    c.check(Interval::full().is_full() && !Interval::full().is_empty() && (Interval::full().length().rad() - TAU).abs() < 4e-15, "full", || "full()".into());
    c.nontrivial();
    c.sample(|| format!("{ctx} -> {i}, length {len:?}"));
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C03",
            rule: "a longitude, azimuth or normalized angle built or computed from any finite values: range check, same direction as the exact value of the operation (exact IEEE remainder), oriented differences turn one operand into the other",
            assumptions: &["f64 `%` is exact (IEEE fmod)", "an angle is defined up to one rounding of its operands"],
            must_see: &["input outside of [-pi, pi]", "input of many turns", "longitude -pi", "azimuth", "sexagesimal", "close across the antimeridian", "far on the circle"],
            streams: vec![
                Stream { name: "wrap", quick: 300_000, thorough: 30_000_000, f: wrap_case },
                Stream { name: "azimuth", quick: 150_000, thorough: 10_000_000, f: azimuth_case },
                Stream { name: "dms-ctor", quick: 100_000, thorough: 5_000_000, f: dms_ctor },
                Stream { name: "circular-eq", quick: 200_000, thorough: 10_000_000, f: circ_eq },
            ],
        },
        Property {
            id: "C04",
            rule: "every way of making a latitude from finite values compared with the exact saturated value",
            assumptions: &[],
            must_see: &["saturated north", "saturated south", "not saturated"],
            streams: vec![Stream { name: "lat", quick: 200_000, thorough: 20_000_000, f: lat_case }],
        },
        Property {
            id: "C07",
            rule: "quantities in published and custom units: value, conversion, arithmetic, trigonometry, arc length, PPM against f64 arithmetic on the published factors",
            assumptions: &["unit factors: deg=pi/180, grad=pi/200, sec=pi/648000, ft=0.3048, US ft=1200/3937"],
            must_see: &["DEG", "RAD", "GRAD", "SEC", "M", "FT", "US_FT", "custom", "two length units", "two angle units", "constants"],
            streams: vec![
                Stream { name: "units", quick: 200_000, thorough: 20_000_000, f: units_case },
                Stream { name: "constants", quick: 44, thorough: 44, f: const_case },
            ],
        },
        Property {
            id: "C08",
            rule: "sexagesimal decomposition recomposed and its printed text parsed back; texts of angles, lengths, coordinates, azimuths, meridians, ellipsoids, datums and geodesics parsed back to their values",
            assumptions: &[],
            must_see: &["dms", "negative angle of less than a degree", "snapped to a whole minute", "text"],
            streams: vec![
                Stream { name: "dms", quick: 300_000, thorough: 20_000_000, f: dms_case },
                Stream { name: "text", quick: 40_000, thorough: 2_000_000, f: text_case },
            ],
        },
        Property {
            id: "C28",
            rule: "intervals of the circle from any bounds: empty/full/single point/length compared with modular arithmetic on the bounds",
            assumptions: &[],
            must_see: &["full", "empty", "through the antimeridian", "ordinary", "bound on the antimeridian", "[-pi..-pi]"],
            streams: vec![Stream { name: "interval", quick: 300_000, thorough: 30_000_000, f: interval_case }],
        },
    ]
}
