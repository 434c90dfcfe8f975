//! Complex arithmetic for the reference projections (independent of the library's own).
use std::ops::{Add, Div, Mul, Neg, Sub};
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct C(pub f64, pub f64);
impl Add for C {
    type Output = C;
    fn add(self, o: C) -> C {
        C(self.0 + o.0, self.1 + o.1)
    }
}
impl Sub for C {
    type Output = C;
    fn sub(self, o: C) -> C {
        C(self.0 - o.0, self.1 - o.1)
    }
}
impl Neg for C {
    type Output = C;
    fn neg(self) -> C {
        C(-self.0, -self.1)
    }
}
impl Mul for C {
    type Output = C;
    fn mul(self, o: C) -> C {
        C(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0)
    }
}
impl Mul<f64> for C {
    type Output = C;
    fn mul(self, k: f64) -> C {
        C(self.0 * k, self.1 * k)
    }
}
impl Div for C {
    type Output = C;
    fn div(self, o: C) -> C {
        let m = o.0 * o.0 + o.1 * o.1;
        C((self.0 * o.0 + self.1 * o.1) / m, (self.1 * o.0 - self.0 * o.1) / m)
    }
}
impl C {
    pub fn abs(self) -> f64 {
        self.0.hypot(self.1)
    }
    pub fn exp(self) -> C {
        let m = self.0.exp();
        C(m * self.1.cos(), m * self.1.sin())
    }
    pub fn ln(self) -> C {
        C(self.abs().ln(), self.1.atan2(self.0))
    }
    pub fn tanh(self) -> C {
        // (1 - e^-2z) / (1 + e^-2z), Re z >= 0
        if self.0 < 0. {
            return -(-self).tanh();
        }
        let t = (self * -2.).exp();
        (C(1., 0.) - t) / (C(1., 0.) + t)
    }
    pub fn atanh(self) -> C {
        let o = C(1., 0.);
        ((o + self) / (o - self)).ln() * 0.5
    }
    /// arctangent, accurate for small arguments
    pub fn atan(self) -> C {
        let (x, y) = (self.0, self.1);
        C(
            0.5 * (2. * x).atan2((1. - x) * (1. + x) - y * y),
            0.25 * ((4. * y) / (x * x + (1. - y) * (1. - y))).ln_1p(),
        )
    }
    pub fn cos(self) -> C {
        C(self.0.cos() * self.1.cosh(), -self.0.sin() * self.1.sinh())
    }
    pub fn powf(self, p: f64) -> C {
        (self.ln() * p).exp()
    }
}
/// 16 point Gauss-Legendre nodes on [-1, 1] (positive half) and weights
pub const GL: [(f64, f64); 8] = [
    (0.0950125098376374402, 0.1894506104550684963),
    (0.2816035507792589132, 0.1826034150449235889),
    (0.4580167776572273863, 0.1691565193950025382),
    (0.6178762444026437485, 0.1495959888165767321),
    (0.7554044083550030339, 0.1246289712555338720),
    (0.8656312023878317439, 0.0951585116824927848),
    (0.9445750230732325761, 0.0622535239386478929),
    (0.9894009349916499326, 0.0271524594117540949),
];
/// integral of f over [0, x] split in n panels
pub fn integrate(f: &dyn Fn(f64) -> f64, x: f64, n: usize) -> f64 {
    let h = x / n as f64;
    let mut s = 0.;
    for i in 0..n {
        let m = (i as f64 + 0.5) * h;
        for (t, w) in GL {
            s += w * (f(m + 0.5 * h * t) + f(m - 0.5 * h * t));
        }
    }
    s * 0.5 * h
}
pub fn integrate_c(f: &dyn Fn(C) -> C, x: C, n: usize) -> C {
    let h = x * (1. / n as f64);
    let mut s = C(0., 0.);
    for i in 0..n {
        let m = h * (i as f64 + 0.5);
        for (t, w) in GL {
            s = s + (f(m + h * (0.5 * t)) + f(m - h * (0.5 * t))) * w;
        }
    }
    s * h * 0.5
}

/// meridian arc from the equator
pub fn meridian_arc(a: f64, b: f64, lat: f64) -> f64 {
    let e2 = (a - b) * (a + b) / (a * a);
    integrate(&|p: f64| a * (1. - e2) * (1. - e2 * p.sin().powi(2)).powf(-1.5), lat, 4)
}

/// isometric latitude
pub fn isometric(e: f64, lat: f64) -> f64 {
    lat.tan().asinh() - e * (e * lat.sin()).atanh()
}

/// Exact transverse Mercator (easting, northing) of unit scale from the equator, by complex
/// continuation of the meridian arc as a function of the isometric latitude.
/// `dl` in [-pi, pi]. Valid away from the singular points on the equator at 90 degrees.
pub fn tm_exact(a: f64, b: f64, lat: f64, dl: f64) -> (f64, f64) {
    let e2 = (a - b) * (a + b) / (a * a);
    let e = e2.sqrt();
    let pole = meridian_arc(a, b, std::f64::consts::FRAC_PI_2);
    let far = dl.abs() > std::f64::consts::FRAC_PI_2;
    let l = if far { std::f64::consts::PI - dl.abs() } else { dl.abs() };
    let q = C(isometric(e, lat.abs()), l);
    let mut z = q;
    for _ in 0..60 {
        let n = q + (z.tanh() * e).atanh() * e;
        let d = (n - z).abs();
        z = n;
        if d < 1e-17 * (1. + z.abs()) {
            break;
        }
    }
    // complex colatitude
    let p = (-z).exp().atan() * 2.;
    let arc = integrate_c(
        &|p: C| {
            let c = p.cos();
            (C(1., 0.) - c * c * e2).powf(-1.5) * (a * (1. - e2))
        },
        p,
        6,
    );
    // arc measured from the pole
    let n = pole - arc.0;
    let x = -arc.1;
    let n = if far { 2. * pole - n } else { n };
    (x.abs().copysign(dl), n.copysign(lat))
}
