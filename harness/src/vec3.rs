pub type V3 = [f64; 3];
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn norm(a: V3) -> f64 {
    a[0].hypot(a[1]).hypot(a[2])
}
pub fn dist(a: V3, b: V3) -> f64 {
    norm(sub(a, b))
}
/// (sin, cos) of a longitude/latitude direction: geocentric position of a geodetic point
/// (reference formula: cartesian equation with N = a^2 / sqrt(a^2 cos^2 + b^2 sin^2)).
pub fn llh_to_xyz(a: f64, b: f64, lon: f64, lat: f64, h: f64) -> V3 {
    let (sl, cl) = lon.sin_cos();
    let (sp, cp) = lat.sin_cos();
    let w = (a * cp).hypot(b * sp);
    let n = a * (a / w);
    let rho = (n + h) * cp;
    [rho * cl, rho * sl, (b * (b / w) + h) * sp]
}
/// unit east and north vectors at (lon, lat)
pub fn east_north(lon: f64, lat: f64) -> (V3, V3) {
    let (sl, cl) = lon.sin_cos();
    let (sp, cp) = lat.sin_cos();
    ([-sl, cl, 0.], [-sp * cl, -sp * sl, cp])
}
