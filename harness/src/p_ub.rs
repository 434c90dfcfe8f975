//! C31: workload of its own for the memory checkers: coordinate slices of the wrong length,
//! each in an allocation of exactly its size.
use crate::gen::*;
use crate::mon::*;
use crate::p_axes::*;
use crate::p_crs::*;
use crate::p_proj::{enh, llh};
use geokit::cs::cartesian::geocentric::GeocentricAxes;
use geokit::geometry::coordinate::curve::line_string::LineStringBuilder;
use geokit::geometry::coordinate::curve::ParameterizedCurve;
use geokit::geometry::primitive::curve::CurveBuilder;
use geokit::geometry::primitive::point::Point;
use geokit::geometry::Geometry;
use geokit::transformations::xyz::{CrsXYZTransformation, ToXYZProvider, XYZIdentity};
use geokit::transformations::CrsTransformation;
use geokit::units::length::M;
use std::hint::black_box;

fn exact(c: &mut Case, n: usize) -> Box<[f64]> {
    (0..n).map(|_| c.rng.range(-1., 1.)).collect::<Vec<_>>().into_boxed_slice()
}

fn slices_case(c: &mut Case) {
    let n = c.rng.usize(6);
    let m = c.rng.usize(6);
    let (a, b) = (exact(c, n), exact(c, m));
    c.hs(&a);
    c.hs(&b);
    c.hu((n * 8 + m) as u64);
    let mut o: Box<[f64]> = exact(c, m);
    let gs = any_geo_spec(c);
    let ps = any_proj_spec(c);
    let (gl, la) = (c.rng.range(-3., 3.), c.rng.range(-1.4, 1.4));
    let k = crs_around(c, gl, la);
    let k2 = crs_around(c, gl, la);
    let tol = exact(c, n.min(m));
    // every call may refuse or panic; none may touch memory that is not its own
    let mut run = |f: &mut dyn FnMut()| {
        let _ = guard(|| f());
    };
    run(&mut || {
        black_box(gs.axes.normalize(&a));
    });
    run(&mut || gs.axes.denormalize(llh(0.1, 0.2, 3.), &mut o));
    run(&mut || {
        black_box(ps.axes.normalize(&a));
    });
    run(&mut || ps.axes.denormalize(enh(1., 2., 3.), &mut o));
    run(&mut || {
        black_box(GeocentricAxes::XYZ.normalize(&a));
    });
    run(&mut || GeocentricAxes::XYZ.denormalize(xyz([1., 2., 3.]), &mut o));
    run(&mut || {
        black_box(k.crs().dist(&a, &b).is_ok());
    });
    run(&mut || {
        black_box(k.crs().approx_eq(&a, &b, &tol));
    });
    run(&mut || {
        let t = k.to_xyz_transformation();
        if let Ok(x) = t.to_xyz(&a) {
            black_box(x);
        }
        let _ = t.from_xyz(xyz([4e6, 3e6, 4e6]), &mut o);
    });
    let t = CrsXYZTransformation::new(k.clone(), k2, XYZIdentity, XYZIdentity);
    run(&mut || {
        let _ = t.fwd(&a, &mut o);
    });
    run(&mut || {
        let _ = t.bwd(&a, &mut o);
    });
    run(&mut || {
        black_box(Point::new(&a).geometry_type());
        if let Ok(l) = LineStringBuilder::with_line(k.crs(), &a, &b).and_then(|l| l.line_to(&a)).map(|l| l.build()) {
            black_box((l.start().len(), l.end().len(), l.coord_dim()));
            let len = l.length(k.crs());
            for s in [-1., 0., 0.3, 1., 1.5] {
                let _ = guard(|| black_box(l.param(k.crs(), len * s)));
            }
            if let Ok(cv) = CurveBuilder::with_seg(k.crs(), l.clone()).and_then(|b| b.append_segment(l)).map(|b| b.build()) {
                for s in [0., 0.5, 1., 2.5] {
                    let _ = guard(|| black_box(cv.param(k.crs(), 2. * len * s)));
                }
            }
        }
    });
    // a line string of the right dimension, asked for lengths it does not have
    let d = k.dim();
    let (a, b) = (exact(c, d), exact(c, d));
    let mut run = |f: &mut dyn FnMut()| {
        let _ = guard(|| f());
    };
    run(&mut || {
        if let Ok(l) = LineStringBuilder::with_line(k.crs(), &a, &b).map(|l| l.build()) {
            for s in [-1., f64::NAN, f64::INFINITY, 1e300, -0.] {
                let _ = guard(|| black_box(l.param(k.crs(), s * M)));
            }
        }
    });
    c.rec.evals += 12;
    if n == m && n == d {
        c.cell("right length");
    } else {
        c.cell("wrong length");
    }
    c.nontrivial();
    c.sample(|| format!("slices of {n} and {m} coordinates, CRS {}", k.desc()));
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C31",
        rule: "",
        assumptions: &[],
        must_see: &[],
        streams: vec![Stream { name: "slices", quick: 20_000, thorough: 1_000_000, f: slices_case }],
    }]
}
