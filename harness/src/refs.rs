//! Reference data (independent of the library): published ellipsoid parameters and
//! prime meridians, as in the PROJ/EPSG registers.
use geokit::geodesy::ellipsoid::consts as ec;
use geokit::geodesy::prime_meridian::consts as pc;
use geokit::geodesy::{Ellipsoid, PrimeMeridian};

pub enum Def {
    B(f64),
    F(f64),
}
use Def::*;

pub struct EllRow {
    pub e: Ellipsoid,
    pub id: &'static str,
    pub a: f64,
    pub b: f64,
    /// inverse flattening, infinite for a sphere
    pub invf: f64,
}

fn row(e: Ellipsoid, id: &'static str, a: f64, d: Def) -> EllRow {
    let (b, invf) = match d {
        B(b) => (b, if a == b { f64::INFINITY } else { a / (a - b) }),
        F(f) => (a - a / f, f),
    };
    EllRow { e, id, a, b, invf }
}

#[rustfmt::skip]
pub fn ellipsoids() -> Vec<EllRow> {
    vec![
    row(ec::AIRY, "AIRY", 6377563.396, F(299.3249646)),
    row(ec::ANDRAE, "ANDRAE", 6377104.43, F(300.0)),
    row(ec::DANISH, "DANISH", 6377019.2563, F(300.0)),
    row(ec::APL_4_9, "APL_4_9", 6378137.0, F(298.25)),
    row(ec::AUST_SA, "AUST_SA", 6378160.0, F(298.25)),
    row(ec::BESSEL, "BESSEL", 6377397.155, F(299.1528128)),
    row(ec::BESS_NAM, "BESS_NAM", 6377483.865, F(299.1528128)),
    row(ec::CLRK66, "CLRK66", 6378206.4, B(6356583.8)),
    row(ec::CLRK80, "CLRK80", 6378249.145, F(293.4663)),
    row(ec::CLRK80IGN, "CLRK80IGN", 6378249.2, F(293.4660212936269)),
    row(ec::CPM, "CPM", 6375738.7, F(334.29)),
    row(ec::DELMBR, "DELMBR", 6376428.0, F(311.5)),
    row(ec::ENGELIS, "ENGELIS", 6378136.05, F(298.2566)),
    row(ec::EVRST30, "EVRST30", 6377276.345, F(300.8017)),
    row(ec::EVRST48, "EVRST48", 6377304.063, F(300.8017)),
    row(ec::EVRST56, "EVRST56", 6377301.243, F(300.8017)),
    row(ec::EVRST69, "EVRST69", 6377295.664, F(300.8017)),
    row(ec::EVRSTSS, "EVRSTSS", 6377298.556, F(300.8017)),
    row(ec::FSCHR60, "FSCHR60", 6378166.0, F(298.3)),
    row(ec::FSCHR68, "FSCHR68", 6378150.0, F(298.3)),
    row(ec::GSK2011, "GSK2011", 6378136.5, F(298.2564151)),
    row(ec::GRS67, "GRS67", 6378160.0, F(298.247167427)),
    row(ec::GRS80, "GRS80", 6378137.0, F(298.257222101)),
    row(ec::IAU76, "IAU76", 6378140.0, F(298.257)),
    row(ec::HELMERT, "HELMERT", 6378200.0, F(298.3)),
    row(ec::HOUGH, "HOUGH", 6378270.0, F(297.0)),
    row(ec::INTL, "INTL", 6378388.0, F(297.0)),
    row(ec::KAULA, "KAULA", 6378163.0, F(298.24)),
    row(ec::KRASS, "KRASS", 6378245.0, F(298.3)),
    row(ec::LERCH, "LERCH", 6378139.0, F(298.257)),
    row(ec::MPRTS, "MPRTS", 6397300.0, F(191.0)),
    row(ec::MERIT, "MERIT", 6378137.0, F(298.257)),
    row(ec::MOD_AIRY, "MOD_AIRY", 6377340.189, B(6356034.446)),
    row(ec::FSCHR60M, "FSCHR60M", 6378155.0, F(298.3)),
    row(ec::NWL9D, "NWL9D", 6378145.0, F(298.25)),
    row(ec::NEW_INTL, "NEW_INTL", 6378157.5, B(6356772.2)),
    row(ec::PLESSIS, "PLESSIS", 6376523.0, B(6355863.0)),
    row(ec::PZ90, "PZ90", 6378136.0, F(298.25784)),
    row(ec::SEASIA, "SEASIA", 6378155.0, B(6356773.3205)),
    row(ec::SGS85, "SGS85", 6378136.0, F(298.257)),
    row(ec::WALBECK, "WALBECK", 6376896.0, B(6355834.8467)),
    row(ec::WGS60, "WGS60", 6378165.0, F(298.3)),
    row(ec::WGS66, "WGS66", 6378145.0, F(298.25)),
    row(ec::WGS72, "WGS72", 6378135.0, F(298.26)),
    row(ec::WGS84, "WGS84", 6378137.0, F(298.257223563)),
    row(ec::SPHERE, "SPHERE", 6370997.0, B(6370997.0)),
    ]
}

pub struct PmRow {
    pub pm: PrimeMeridian,
    pub id: &'static str,
    /// Greenwich longitude in degrees, positive east
    pub deg: f64,
}

fn dms(s: f64, d: f64, m: f64, sec: f64) -> f64 {
    s * (d + m / 60. + sec / 3600.)
}

/// Prime meridians as published in degrees, minutes and seconds (PROJ `pj_prime_meridians`).
pub fn meridians() -> Vec<PmRow> {
    let r = |pm, id, deg| PmRow { pm, id, deg };
    vec![
        r(pc::GREENWICH, "GREENWICH", 0.),
        r(pc::LISBON, "LISBON", dms(-1., 9., 7., 54.862)),
        r(pc::PARIS, "PARIS", dms(1., 2., 20., 14.025)),
        r(pc::BOGOTA, "BOGOTA", dms(-1., 74., 4., 51.3)),
        r(pc::MADRID, "MADRID", dms(-1., 3., 41., 16.58)),
        r(pc::ROME, "ROME", dms(1., 12., 27., 8.4)),
        r(pc::BERN, "BERN", dms(1., 7., 26., 22.5)),
        r(pc::JAKARTA, "JAKARTA", dms(1., 106., 48., 27.79)),
        r(pc::FERRO, "FERRO", dms(-1., 17., 40., 0.)),
        r(pc::BRUSSELS, "BRUSSELS", dms(1., 4., 22., 4.71)),
        r(pc::STOCKHOLM, "STOCKHOLM", dms(1., 18., 3., 29.8)),
        r(pc::ATHENS, "ATHENS", dms(1., 23., 42., 58.815)),
        r(pc::OSLO, "OSLO", dms(1., 10., 43., 22.5)),
        r(pc::COPENHAGEN, "COPENHAGEN", dms(1., 12., 34., 40.35)),
    ]
}
