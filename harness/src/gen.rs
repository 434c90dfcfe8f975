//! Hostile workload generators: ordinary values, every boundary of the domain at many
//! scales of proximity, round numbers, and all well-known configurations.
use crate::dict::name;
use crate::refs;
use crate::rng::Rng;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::quantities::angle::Angle;
use geokit::quantities::length::Length;
use geokit::units::angle::{AngleUnit, DEG, GRAD, RAD, SEC};
use geokit::units::length::{LengthUnit, FT, M, US_FT};
use std::f64::consts::{FRAC_PI_2, PI};

pub const D2R: f64 = PI / 180.0;

/// An ellipsoid together with its defining parameters as known by the generator
/// (not read back from the library).
#[derive(Clone)]
pub struct Ell {
    pub e: Ellipsoid,
    pub a: f64,
    pub b: f64,
    pub id: &'static str,
}

impl Ell {
    pub fn f(&self) -> f64 {
        (self.a - self.b) / self.a
    }
    pub fn e2(&self) -> f64 {
        (self.a - self.b) * (self.a + self.b) / (self.a * self.a)
    }
    pub fn sphere(&self) -> bool {
        self.a == self.b
    }
}

pub fn ell_table() -> &'static Vec<Ell> {
    // one table per thread: nothing of the library is shared between workers
    thread_local!(static T: &'static Vec<Ell> = Box::leak(Box::new(
        refs::ellipsoids().into_iter().map(|r| Ell { e: r.e, a: r.a, b: r.b, id: r.id }).collect()
    )));
    T.with(|t| *t)
}

pub fn wgs84() -> Ell {
    ell_table().iter().find(|e| e.id == "WGS84").unwrap().clone()
}

pub fn from_ab(a: f64, b: f64) -> Ell {
    Ell {
        e: Ellipsoid::from_ab(name(a, "custom ab"), Length::new(a, M), Length::new(b, M)),
        a,
        b,
        id: "custom-ab",
    }
}

pub fn from_ainvf(a: f64, invf: f64) -> Ell {
    Ell {
        e: Ellipsoid::from_ainvf(name(invf, "custom ainvf"), Length::new(a, M), invf),
        a,
        b: a - a / invf,
        id: "custom-ainvf",
    }
}

/// Terrestrial ellipsoids: the 46 well-known ones, plus custom ones with a flattening
/// between 0 (sphere) and about 1/190.
pub fn ell_earth(r: &mut Rng) -> Ell {
    match r.below(10) {
        0..=2 => wgs84(),
        3..=6 => r.pick(ell_table()).clone(),
        7 => from_ainvf(r.range(6.35e6, 6.40e6), r.range(191., 340.)),
        8 => {
            let a = r.range(6.35e6, 6.40e6);
            from_ab(a, a * (1. - 1. / r.range(191., 340.)))
        }
        _ => match r.below(4) {
            0 => {
                let a = r.range(6.35e6, 6.40e6);
                from_ab(a, a)
            }
            1 => from_ab(6371000., 6371000.),
            2 => from_ainvf(6371000., f64::INFINITY),
            _ => from_ainvf(r.range(6.35e6, 6.40e6), r.log(340., 1e7)),
        },
    }
}

/// Ellipsoids of terrestrial size, flatter than any used for the Earth: the terms of high order of
/// the series become visible.
pub fn ell_flat(r: &mut Rng) -> Ell {
    from_ainvf(r.range(6.35e6, 6.40e6), r.log(20., 190.))
}

/// Any oblate ellipsoid: terrestrial, other planets, unit ellipsoids, strong flattening.
pub fn ell_any(r: &mut Rng) -> Ell {
    match r.below(10) {
        0..=5 => ell_earth(r),
        6 => from_ainvf(1737400., r.log(300., 1e6)),
        7 => from_ainvf(71492000., 15.4144),
        8 => {
            let a = r.log(0.5, 1e9);
            from_ainvf(a, r.log(5., 1e6))
        }
        _ => {
            let a = r.log(0.5, 1e9);
            if r.chance(1, 3) {
                from_ab(a, a)
            } else {
                from_ab(a, a * r.range(0.8, 1.0))
            }
        }
    }
}

pub struct Pm {
    pub pm: PrimeMeridian,
    /// Greenwich longitude in radians
    pub lon: f64,
    pub id: &'static str,
}

pub fn pm_any(r: &mut Rng) -> Pm {
    thread_local!(static T: &'static Vec<refs::PmRow> = Box::leak(Box::new(refs::meridians())));
    let t = T.with(|t| *t);
    match r.below(8) {
        0 | 1 => Pm {
            pm: t[0].pm.clone(),
            lon: 0.,
            id: "GREENWICH",
        },
        2 | 3 | 4 => {
            let p = r.pick(t);
            // the value carried by the constant itself is judged by the constants property
            Pm {
                pm: p.pm.clone(),
                lon: p.pm.lon().angle().rad(),
                id: p.id,
            }
        }
        5 => {
            let d = *r.pick(&[180., -180., 90., -90., 179.999999999, 0.0, 1e-9, -1e-9]);
            pm_of(d * D2R)
        }
        _ => pm_of(r.range(-PI, PI)),
    }
}

pub fn pm_of(rad: f64) -> Pm {
    Pm {
        pm: PrimeMeridian::new(name(rad, "custom"), Lon::new(Angle::new(rad, RAD))),
        lon: rad,
        id: "custom",
    }
}

pub fn datum(e: &Ell, p: &Pm) -> GeodeticDatum {
    GeodeticDatum::new(name(e.a + p.lon, "D"), e.e.clone(), p.pm.clone())
}

/// value moved by a few ulps
pub fn nudge(r: &mut Rng, x: f64) -> f64 {
    let n = r.below(7) as i64 - 3;
    let mut y = x;
    for _ in 0..n.abs() {
        y = if n > 0 { y.next_up() } else { y.next_down() };
    }
    y
}

/// 10^-k style offsets from 1e-16 to 1
fn tiny(r: &mut Rng) -> f64 {
    r.log(1e-16, 1.0) * r.sign()
}

/// A latitude in radians in [-pi/2, pi/2].
pub fn lat(r: &mut Rng) -> f64 {
    let v = match r.below(16) {
        0 => *r.pick(&[0., -0., FRAC_PI_2, -FRAC_PI_2, 45. * D2R, -45. * D2R]),
        1 => r.sign() * (FRAC_PI_2 - tiny(r).abs()),
        2 => tiny(r),
        3 => (r.below(181) as f64 - 90.) * D2R,
        4 => {
            let c = *r.pick(&[FRAC_PI_2, -FRAC_PI_2, 0.0]);
            nudge(r, c)
        }
        5 => (r.below(181) as f64 - 90.) * D2R + 1e-3 * tiny(r),
        6 | 7 | 8 => r.range(-1., 1.).asin(),
        9 => r.sign() * (90. - r.log(1e-9, 10.)) * D2R,
        10 => (r.range(-90., 90.) * 1e3).round() / 1e3 * D2R,
        _ => r.range(-FRAC_PI_2, FRAC_PI_2),
    };
    v.clamp(-FRAC_PI_2, FRAC_PI_2)
}

/// A longitude in radians in [-pi, pi].
pub fn lon(r: &mut Rng) -> f64 {
    let v = match r.below(16) {
        0 => *r.pick(&[0., -0., PI, -PI, FRAC_PI_2, -FRAC_PI_2, PI / 4., -PI * 0.75]),
        1 => r.sign() * (PI - tiny(r).abs()),
        2 => tiny(r),
        3 => (r.below(361) as f64 - 180.) * D2R,
        4 => {
            let c = *r.pick(&[PI, -PI, FRAC_PI_2, -FRAC_PI_2, 0.0]);
            nudge(r, c)
        }
        5 => (r.below(361) as f64 - 180.) * D2R + 1e-3 * tiny(r),
        6 => (r.below(61) as f64 * 6. - 180.) * D2R,
        7 => r.sign() * FRAC_PI_2 + tiny(r),
        8 => (r.range(-180., 180.) * 1e3).round() / 1e3 * D2R,
        _ => r.range(-PI, PI),
    };
    v.clamp(-PI, PI)
}

/// Any angle in radians, far outside of the principal range too.
pub fn angle_any(r: &mut Rng) -> f64 {
    match r.below(14) {
        0 => {
            // multiples of pi, nudged
            let k = r.below(4001) as f64 - 2000.;
            nudge(r, k * PI)
        }
        1 => {
            let k = (r.log(1., 1e15)).round() * r.sign();
            nudge(r, k * PI)
        }
        2 => {
            let k = (r.log(1., 1e12)).round() * r.sign();
            k * 180. * (PI / 180.)
        }
        3 => r.log(1e-300, 1e-3) * r.sign(),
        4 => r.log(1., 1e18) * r.sign(),
        5 => r.log(1e18, 1e300) * r.sign(),
        6 => *r.pick(&[0., -0., PI, -PI, 2. * PI, -2. * PI, 3. * PI, -3. * PI, f64::MIN_POSITIVE, 5e-324]),
        7 => lon(r) + 2. * PI * (r.below(21) as f64 - 10.),
        8 => (r.below(2881) as f64 - 1440.) * D2R,
        9 => r.sign() * PI + tiny(r),
        10 => lat(r),
        11 => r.range(-20., 20.),
        _ => lon(r),
    }
}

/// Ellipsoidal height in metres near Earth's surface and beyond.
pub fn height(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => *r.pick(&[0., -0., 100., -100., 8848., -11034., 1.0, -1.0, 1e4, 1e5, 1e6, 2e7, 35786000., 3.844e8]),
        1 => r.log(1e-9, 1.) * r.sign(),
        2 => r.log(1., 1e9),
        3 => -r.log(1., 3e6),
        4 => r.range(-1e6, 1e6),
        5 => (r.range(-1000., 9000.)).round(),
        _ => r.range(-11000., 9000.),
    }
}

pub fn angle_unit(r: &mut Rng) -> (AngleUnit, f64, &'static str) {
    match r.below(8) {
        0 | 1 => (DEG, PI / 180., "DEG"),
        2 | 3 => (RAD, 1., "RAD"),
        4 | 5 => (GRAD, PI / 200., "GRAD"),
        6 => (SEC, PI / 648000., "SEC"),
        _ => {
            let n = r.log(1e-3, 1e3);
            let d = r.log(1e-3, 1e3);
            (AngleUnit(n, d), n / d, "custom")
        }
    }
}

pub fn length_unit(r: &mut Rng) -> (LengthUnit, f64, &'static str) {
    match r.below(8) {
        0 | 1 => (M, 1., "M"),
        2 | 3 => (FT, 0.3048, "FT"),
        4 | 5 => (US_FT, 1200. / 3937., "US_FT"),
        6 => (LengthUnit(1000., 1.), 1000., "km"),
        _ => {
            let n = r.log(1e-3, 1e3);
            let d = r.log(1e-3, 1e3);
            (LengthUnit(n, d), n / d, "custom")
        }
    }
}

pub fn mk_lon(rad: f64) -> Lon {
    Lon::new(Angle::new(rad, RAD))
}
pub fn mk_lat(rad: f64) -> Lat {
    Lat::new(Angle::new(rad, RAD))
}
pub fn mk_len(m: f64) -> Length {
    Length::new(m, M)
}

/// a finite float of any magnitude, including the special ones
pub fn any_finite(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => *r.pick(&[0., -0., 1., -1., f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, 1e308, f64::EPSILON]),
        1 => loop {
            let x = f64::from_bits(r.u64());
            if x.is_finite() {
                break x;
            }
        },
        2 => r.log(1e-300, 1e300) * r.sign(),
        3 => r.range(-1e7, 1e7),
        _ => r.range(-10., 10.),
    }
}
