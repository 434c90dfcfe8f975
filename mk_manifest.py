#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed; this is their only source)."""
import json
import subprocess

G = "geokit/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, hook=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[G + f if not f.startswith("geokit") else f for f in files],
                  mech=mech, technique=technique, note=note, hook=hook, observe=observe))


I, C, H, S, PR = "inputs", "configurations", "histories", "schedules", "programs"
DG = "The domain and the tolerance are those of the statement; reach is by directed random generation (boundary values at many scales, random values, table of constants), not enumeration."

prop("C01", "Geodetic to geocentric conversion gives the point the position denotes",
     "For every geodetic datum (any ellipsoid, sphere included, and any prime meridian), converting a geodetic position to geocentric coordinates gives the point lying at that ellipsoidal height along the outward normal of the ellipsoid at that latitude and Greenwich longitude (datum longitude plus the longitude of the prime meridian). The result is right to 1e-14 of the distance scale for every longitude in [-pi, pi], latitude in [-pi/2, pi/2] and finite height, poles and antimeridian included.",
     [I, C], "all datums (ellipsoid x prime meridian) and all geodetic positions",
     "The tests compare a few hundred positions on two ellipsoids and the Greenwich meridian; other meridians, spheres and the poles are hardly reached.",
     ["geodesy/geodetic_datum.rs", "geodesy/ellipsoid.rs", "geodesy/prime_meridian.rs"],
     [("closed form with prime vertical radius, longitude shifted by the prime meridian", "GeodeticDatum::llh_to_xyz")],
     "runtime oracle: cartesian equation of the ellipsoid recomputed independently after each call", DG)
prop("C02", "Geocentric to geodetic conversion gives back the position of the point",
     "For every datum and every geocentric point farther from the centre than 1% of the semi-major axis and than three times the extent of the ellipsoid's evolute (about 130 km on Earth), the returned geodetic position denotes that same point (to nanometre-level relative accuracy, 1e-14 of the distance scale times a small factor) and is the position of the nearest point of the ellipsoid. Longitude is in [-pi, pi], latitude in [-pi/2, pi/2], and points on the polar axis (which get the Greenwich longitude 0), on the equatorial plane, far away or deep inside are included.",
     [I, C], "all datums and all geocentric points outside of a small neighbourhood of the centre",
     "The tests sample points near the surface of one ellipsoid; axis points, other meridians, far and deep points are not sampled.",
     ["geodesy/geodetic_datum.rs", "geodesy/ellipsoid.rs"],
     [("closed form/iteration with a branch per region", "GeodeticDatum::xyz_to_llh")],
     "runtime oracle: constructed points of known position, and bisection for the foot of the perpendicular", DG)
prop("C03", "Longitudes, azimuths and angle differences wrap to the same direction",
     "Any longitude built or computed (constructors in radians, degrees, sexagesimal; sums, differences, products, quotients, negation) from finite values lies in [-pi, pi], its normalized form, every azimuth and every normalized angle in (-pi, pi], and each denotes exactly the direction of the computed angle modulo a turn, values already in range being left alone. The oriented difference of two angles, longitudes or azimuths lies in (-pi, pi] and turns the one into the other. Longitudes and azimuths compare approximately equal exactly when they are within the tolerance of each other on the circle, also across the antimeridian.",
     [I], "all finite values, many turns and values next to multiples of pi included",
     "The unit tests check a dozen values, none beyond a few turns.",
     ["cs/geodetic.rs", "cs/azimuth.rs", "quantities/angle.rs", "math/fp.rs"],
     [("wrapping by an IEEE remainder", "Angle::wrap/normalize, Lon, Azimuth")],
     "runtime monitor: range and modular arithmetic on the exact operands (exact fmod) after each operation", DG)
prop("C04", "Latitudes saturate at the poles",
     "Any latitude built or computed from finite values (constructors in radians, degrees, sexagesimal; sums, differences, products, quotients, negation, absolute value) is the exact value of the operation clamped to [-pi/2, pi/2]: never beyond a pole, and unchanged when in range. Differences, order and approximate comparison of latitudes are those of these values.",
     [I], "all finite values", "The unit tests check a few values of some of the operations.",
     ["cs/geodetic.rs"], [("clamping in the constructor", "Lat::new and operators")],
     "runtime monitor: clamped f64 arithmetic on the operands after each operation", DG)
prop("C05", "Geodetic axes map raw coordinates to the right component, sign and unit",
     "For every kind of geodetic axes (order, direction) and all angle and height units, reading raw coordinates gives the longitude, latitude and height they stand for (east and north positive, longitudes wrapped, latitudes saturated, height 0 for two axes), and writing a position gives back the coordinates of those axes. The number of coordinates read and written is the dimension of the axes (nothing beyond is touched), and tolerances are written in the same order and units. The default axes are east, north, up in radians and metres.",
     [I, C], "all axes kinds x units x coordinates", "The unit tests use one or two units and one position per kind.",
     ["cs/geodetic.rs"], [("normalize/denormalize per kind of axes", "GeodeticAxes")],
     "runtime monitor: independent axis table, sentinels around the output buffer", DG)
prop("C06", "Geocentric and projected axes map coordinates to the right component and unit",
     "For every kind of projected axes with any horizontal and height units, and for geocentric axes, reading raw coordinates gives the easting, northing, height (0 for two axes) or x, y, z they stand for in metres, and writing gives them back in the axes' order and units. The number of coordinates read and written is the dimension of the axes, tolerances are written in the same order and units, and the distance between two such positions is the Euclidean distance in metres.",
     [I, C], "all axes kinds x units x coordinates", "The unit tests use one position in metres or feet.",
     ["cs/cartesian/projected.rs", "cs/cartesian/geocentric.rs"], [("normalize/denormalize per kind of axes", "ProjectedAxes, GeocentricAxes")],
     "runtime monitor: independent axis table, sentinels around the output buffer", DG)
prop("C07", "Angles, lengths and scale corrections behave as the quantities they denote",
     "A length or angle made of a value in a unit denotes value x unit (published factors for metre, foot, US foot, radian, degree, gradian, second; any custom factor), reads back in any other unit as the converted value, and adds, subtracts, negates, scales, divides, compares, and takes absolute value, minimum, maximum, trigonometric functions and arc lengths as the number it denotes, to a few roundings. Parts per million scale a quantity by 1 + ppm/1e6.",
     [I, C], "all units and finite values", "The unit tests check a handful of conversions.",
     ["quantities/angle.rs", "quantities/length.rs", "quantities/scale.rs", "units/angle.rs", "units/length.rs"],
     [("values stored in radians/metres, units as exact ratios", "Angle, Length, AngleUnit, LengthUnit, PPM")],
     "runtime monitor: f64 arithmetic on the published unit factors after each operation", DG)
prop("C08", "Sexagesimal parts and printed text denote the value they come from",
     "The degrees, minutes and seconds of an angle are whole degrees, whole minutes in 0..59 and seconds in [0, 60) that recompose to the angle, sign included, to within 2e-10 degree, and their printed text reads back as that angle. The printed text of angles, degrees, lengths, longitudes, latitudes, geodetic, geocentric and projected coordinates, azimuths, prime meridians, ellipsoids, datums and geodesics contains the very values of the object, in order.",
     [I], "all angles and objects", "The tests print a few round values.",
     ["quantities/angle.rs", "quantities/length.rs", "cs/geodetic.rs", "cs/azimuth.rs", "geodesy/geodesics/mod.rs", "geodesy/ellipsoid.rs", "geodesy/prime_meridian.rs", "geodesy/geodetic_datum.rs"],
     [("snapping and carrying in the decomposition", "Angle::dms"), ("Display implementations", "quantities, cs, geodesy")],
     "runtime monitor: recomposition and parsing of the printed text after each call", DG + " Only the numbers, names and their order in the text are judged, not its layout.")
prop("C09", "Mercator projection (1 and 2 standard parallels) is the ellipsoidal Mercator",
     "For every ellipsoid of terrestrial size with flattening up to 1/20, origin longitude, scale or standard parallel (within 88 degrees), false easting and northing, and every position within 89.99 degrees of latitude, the Mercator easting and northing are those of the ellipsoidal Mercator projection (to micrometres), longitudes being taken relative to the origin across the antimeridian, and height is kept. The inverse gives back longitude and latitude to 0.25 e^10 rad (e: eccentricity; 3e-11 rad up to flattening 1/190), and the round trip is the identity to the same accuracy.",
     [I, C], "all parameters and positions", "The tests compare a table of positions for two parameter sets.",
     ["projections/cyl/mercator.rs", "projections/mod.rs"], [("isometric latitude; series for the inverse", "Mercator")],
     "runtime oracle: closed form by cancellation-free formulas, inverse by fixed point iteration", DG)
prop("C10", "Web Mercator is the spherical Mercator on the semi-major axis, both ways",
     "For every ellipsoid, origin longitude, false easting and northing, with origin latitude 0, Web Mercator maps a position within 89.99 degrees of latitude to false easting + a x (longitude difference in (-pi, pi]) and false northing + a x ln tan(pi/4 + lat/2), keeping the height. The inverse gives back longitude and latitude, and the round trip is the identity, to rounding accuracy.",
     [I, C], "all parameters and positions", "The tests check two positions.",
     ["projections/cyl/web_mercator.rs"], [("closed forms", "WebMercator")],
     "runtime oracle: spherical closed form, both directions and round trip", DG)
prop("C11", "Transverse Mercator forward gives the exact grid coordinates",
     "For every terrestrial ellipsoid, origin (any longitude, any latitude), scale, false easting and northing, and every position within 40 degrees of angular distance of the central meridian's great circle (positions over the pole and at the poles included), transverse Mercator easting and northing are those of the exact (Gauss-Krueger) projection, to micrometres within 5 degrees and to half a millimetre at 40 degrees, height kept. On ellipsoids as flattened as 1/20 the accuracy is that of the series in the third flattening cut after the fourth order (1.5 times its next term). Longitudes are taken relative to the origin across the antimeridian.",
     [I, C], "all parameters and positions within 40 degrees of the central meridian", "The tests compare a table for UTM zones near their central meridian.",
     ["projections/cyl/transverse_mercator.rs"], [("sixth order Krueger series", "TransverseMercator::proj")],
     "runtime oracle: complex continuation of the meridian arc by Gauss-Legendre quadrature", DG)
prop("C12", "Transverse Mercator inverse gives back the position of the grid coordinates",
     "For the same parameters and region as the forward projection, the inverse of exact grid coordinates is the original position (to the same accuracy on the ground: micrometres within 5 degrees of the central meridian, half a millimetre at 40 degrees), with longitude in [-pi, pi], latitude in [-pi/2, pi/2] and the height kept. Projecting and unprojecting is the identity to twice that. On ellipsoids as flattened as 1/20 the accuracy is that of the series cut after the fourth order.",
     [I, C], "all parameters and positions within 40 degrees of the central meridian", "The tests compare a table for UTM zones near their central meridian.",
     ["projections/cyl/transverse_mercator.rs"], [("sixth order series for the inverse", "TransverseMercator::unproj")],
     "runtime oracle: grid coordinates constructed by the exact projection from known positions", DG)
prop("C13", "Each of the 120 UTM zones has its published parameters",
     "UTM zone n (1 to 60), north or south, on any terrestrial ellipsoid is the transverse Mercator projection with central meridian 6n - 183 degrees, origin latitude 0, scale 0.9996, false easting 500000 m and false northing 0 (north) or 10000000 m (south), forward and inverse, to micrometres within 8 degrees of the central meridian.",
     [I, C], "all zones, both hemispheres, all positions within 8 degrees", "The tests use a few zones.",
     ["projections/mod.rs", "projections/cyl/transverse_mercator.rs"], [("zone parameters", "ProjectionSpec::applied_to")],
     "runtime oracle: exact projection with the published zone table, all 120 zones in every run", DG)
prop("C14", "Projections always answer: finite and in range, or an error",
     "Projecting any position of the ellipsoid and unprojecting any plane coordinates, of any magnitude and even non-finite, with any kind of projection on a terrestrial ellipsoid returns in bounded time without panicking. For finite input a success holds finite coordinates (with longitude in [-pi, pi], latitude in [-pi/2, pi/2] and the same height), and positions well inside the domain (within 89.9 degrees of latitude for Mercator, within 40 degrees of the central meridian for transverse Mercator; plane coordinates within 4000 km x 9000 km of the false origin) are never refused.",
     [I, C], "all projections, positions and plane coordinates", "The tests never leave the domain.",
     ["projections/cyl/mercator.rs", "projections/cyl/transverse_mercator.rs", "projections/cyl/web_mercator.rs", "projections/mod.rs"],
     [("bounds checks, bounded iterations", "proj/unproj")],
     "runtime monitor: panic interception, per-thread CPU-time watchdog, range checks on every result", DG)
prop("C15", "Direct geodesic: end point, azimuths and length are those of the geodesic",
     "On every ellipsoid of terrestrial size (semi-major axis a) with flattening f in [0, 1/20], for every start, azimuth and length up to 200000 km (poles, meridians, equator and several turns included), each direct solver (Vincenty, Rapp, Karney) succeeds and returns the end point and final azimuth of the geodesic, and echoes start, initial azimuth and length. Accuracy per half turn is 0.01 mm + 0.25 a f^4 for Vincenty, 2 micrometres + 2 a f^5 for Rapp and 0.1 micrometre + 0.05 a f^7 for Karney (on Earth 0.2 mm, 8 micrometres and 0.1 micrometre), azimuths correspondingly.",
     [I, C], "all ellipsoids, starts, azimuths and lengths", "The tests check a dozen published lines and a subset of the Karney test file.",
     ["geodesy/geodesics/vincenty.rs", "geodesy/geodesics/rapp.rs", "geodesy/geodesics/karney.rs", "geodesy/geodesics/mod.rs"],
     [("series on the auxiliary sphere", "solve_direct of the three solvers")],
     "runtime oracle: quadrature of the geodesic integrals on the auxiliary sphere", DG)
prop("C16", "Inverse geodesic: the shortest line, or an error, never a wrong line",
     "For every pair of points on such an ellipsoid, the Vincenty and Rapp inverse solvers return, in bounded time, either an error or the length of the shortest geodesic with its azimuths at both ends, to the accuracies of the direct problem, echoing the points. Pairs farther from antipodal than 4 degrees and 4 f half turns (coincident, polar, meridional and equatorial pairs included) are always solved.",
     [I, C], "all pairs of points", "The tests check published lines in general position.",
     ["geodesy/geodesics/vincenty.rs", "geodesy/geodesics/rapp.rs", "geodesy/geodesics/mod.rs"],
     [("iteration on the longitude difference", "solve_inverse")],
     "runtime oracle: shortest geodesic by bisection and quadrature; azimuths certified by shooting the reference geodesic and measuring the miss distance", DG + " Karney's inverse is not implemented in the library: recorded as a known finding.")
prop("C17", "Geodesic solvers agree with themselves, each other and the symmetries",
     "The inverse of the end points of a direct line (up to the antipodal region) gives back its length and azimuths, for every pair of solvers; reversing a line reverses its azimuths and keeps its length; mirroring in the equator or a meridian and rotating about the axis move the line along; scaling the ellipsoid scales the length. Lengths are at least the chord and at most half the equator, and satisfy the triangle inequality.",
     [I, C], "all lines and solver pairs", "The tests compare single lines with published values.",
     ["geodesy/geodesics/vincenty.rs", "geodesy/geodesics/rapp.rs", "geodesy/geodesics/karney.rs"],
     [("solver formulas", "solve_direct, solve_inverse")],
     "runtime monitor: metamorphic relations between solver runs", DG)
prop("C18", "The distance of a CRS is the distance between the two points",
     "In every geocentric, geographic or projected CRS, with any axes and units, the distance between two coordinates is in metres, symmetric, zero for the same position and equal to: the Euclidean distance of the coordinates for geocentric and projected CRS (in the dimension of the CRS), the straight line in space between the two points for geographic 3D CRS, and the length of the geodesic on the datum's ellipsoid for geographic 2D CRS. A geodesic distance may be refused only within 4 degrees (or 4 f half turns, if more) of the antipode.",
     [I, C], "all CRS and coordinate pairs", "The tests check one pair per kind of CRS.",
     ["crs/geocentric.rs", "crs/geographic.rs", "crs/projected.rs"], [("dist of each kind of CRS", "Crs::dist")],
     "runtime oracle: scaled Euclidean arithmetic, straight line in space, geodesic quadrature", DG)
prop("C19", "Approximate equality means within the tolerance on every axis",
     "Two positions (geodetic, geocentric, projected, or raw coordinates of any CRS) compare approximately equal exactly when, on every axis, they differ by no more than the tolerance of that axis (equality with the tolerance included; longitudes on the circle for geodetic positions), whatever the order of the two. The predefined tolerances are tiny = 1e-12 rad and 1e-4 m (the default) and small = 1e-9 rad and 1e-3 m. The library's checking helpers (approx_eq_llh, approx_eq_xyz, check_direct, check_inverse) report a difference exactly when one component is beyond its tolerance.",
     [I, C], "all pairs of positions and tolerances", "The tests rarely compare positions that differ by little, and never one axis at a time.",
     ["cs/geodetic.rs", "cs/cartesian/mod.rs", "cs/cartesian/geocentric.rs", "cs/cartesian/projected.rs", "crs/mod.rs"],
     [("comparison per axis", "approx_eq")],
     "runtime monitor: offsets of known size on each axis, verdict compared with the expected one", DG)
prop("C20", "A CRS transformation is exactly its four documented steps, both ways",
     "Transforming forward converts source coordinates to geocentric with the source datum, applies the source's shift to the reference datum, then the inverse of the destination's shift, then converts to destination coordinates; backward is the same with the roles exchanged; each step is applied once, in that order, on the previous step's output. The result equals those public steps applied by hand, axes, units, prime meridians and projection included, only the dimension of the destination is written, and it is refused exactly when a projection (or the user's own CRS) refuses, whatever the shifts themselves call meanwhile. With identity shifts and identical CRS the coordinates come back unchanged, to a millimetre.",
     [I, C, H], "all pairs of CRS, datum shifts and coordinates", "The tests transform one point between a few CRS.",
     ["transformations/xyz.rs", "transformations/mod.rs", "crs/geocentric.rs", "crs/geographic.rs", "crs/projected.rs"],
     [("composition", "CrsXYZTransformation::fwd/bwd"), ("per CRS conversion", "ToXYZ implementations")],
     "online checker of a trace specification: recording datum shifts log each call with its arguments and results", DG)
prop("C21", "Transforming there and back returns to the same place",
     "For every pair of CRS (destination with a height) and datum shifts with an exact inverse, backward after forward gives back the coordinates, to a millimetre on the ground, for every point in the usual domain of both projections (84S to 84N; within 5 degrees of the central meridian of transverse Mercator; heights of the Earth's surroundings).",
     [I, C], "all pairs of CRS and points", "The tests make a few round trips.",
     ["transformations/xyz.rs", "projections/mod.rs", "geodesy/geodetic_datum.rs"],
     [("composition of inverse steps", "CrsXYZTransformation::fwd/bwd")],
     "runtime monitor: round trip distance on the ground and in coordinates", DG)
prop("C22", "Datum shifts follow the EPSG translation and Helmert formulas, with inverses",
     "Geocentric translation adds its three offsets going to the reference and subtracts them coming back. The seven parameter transformation, in the coordinate frame as in the position vector convention, is the translation plus (1 + ppm/1e6) times the (linearised) rotation of the point, with the signs of its convention, and its inverse undoes it up to second order in the rotations and scale.",
     [I, C], "all parameters (rotations up to 1e-4 rad, scale up to 1000 ppm, translations up to 1 km) and points", "The tests check one example per convention.",
     ["transformations/xyz.rs", "quantities/scale.rs"], [("rotation matrices", "XYZ translations and Helmert transformations")],
     "runtime oracle: EPSG 1031/1032/1033 formulas after each call, through a guarded hook (the types are crate private)", DG,
     hook="cfg(geokit_verif) module `verif` in transformations/xyz.rs: constructors for the crate private transformations")
prop("C23", "A line string goes through its positions, at constant speed on each segment",
     "In every CRS, the library's or the user's, a line string starts and ends at its first and last control positions (closed: at the first again), has the dimension of its CRS, and measures the sum of the CRS distances between consecutive positions. The position at length s, for every s in [0, length], lies on the segment that holds s, at the proportion of s within that segment (exactly the start for 0 and the end for the full length, zero-length segments included); a length beyond the end is refused, and so are positions of another dimension. Two line strings of a CRS are equal exactly when their positions are.",
     [I, C, H], "all CRS, position sequences and lengths", "The tests use one square and a few lengths.",
     ["geometry/coordinate/curve/line_string.rs", "geometry/coordinate/curve/mod.rs"],
     [("cumulated lengths and linear interpolation", "LineString::param, LineStringBuilder")],
     "runtime monitor: replay of the control positions, probes at every segment end and its floating point neighbours", DG + " as_line_string is a todo!() in the library: recorded as a known finding.")
prop("C24", "A curve is its segments end to end; points hold their position",
     "A curve built of segments (the library's or the user's) starts where the first starts, ends where the last ends, measures the sum of their lengths, is a cycle exactly when it ends where it starts, and its boundary is its two ends (none for a cycle). The position at length s in [0, length] is that of the segment holding s, at s minus the lengths before it, and segments are only asked for lengths they have; segments that do not start where the previous one ends, or of another dimension, are refused. A point holds its position and dimension, is a cycle and has no boundary.",
     [I, C, H], "all segment sequences and lengths", "The tests join two segments.",
     ["geometry/primitive/curve.rs", "geometry/primitive/point.rs", "geometry/mod.rs"],
     [("segment lookup", "Curve::param, CurveBuilder")],
     "online checker: recording user-defined segments log what they are asked for, compared with the specification", DG + " as_line_string is a todo!() in the library: recorded as a known finding.")
prop("C25", "Ellipsoid parameters are consistent and impossible ellipsoids are refused",
     "Every ellipsoid, made from its two axes or from axis and inverse flattening, has semi-axes, flattening, third flattening, eccentricities, reduced and geocentric latitudes, radii of curvature in the meridian and the prime vertical and conformal sphere radius that satisfy their definitions at every latitude, to rounding accuracy, sphere and poles included. A semi-major axis that is not positive, a semi-minor axis that is not in (0, a], or an inverse flattening not above 1 (NaN included) is refused.",
     [I, C], "all axes, flattenings and latitudes (b >= 0.3 a)", "The tests check one ellipsoid.",
     ["geodesy/ellipsoid.rs"], [("constructors and derived parameters", "Ellipsoid")],
     "runtime oracle: cancellation-free formulas on the two axes", DG)
prop("C26", "Named ellipsoids, prime meridians and datums have their published values",
     "Each named ellipsoid constant has the published semi-axes and inverse flattening, each named prime meridian the published Greenwich longitude and its name, each named datum its ellipsoid, the Greenwich meridian and its name.",
     [C], "all exported constants (46 ellipsoids, 14 meridians, 4 datums), exhaustively", "The tests use a handful of the constants.",
     ["geodesy/ellipsoid.rs", "geodesy/prime_meridian.rs", "geodesy/geodetic_datum.rs"], [("constant tables", "consts modules")],
     "runtime oracle: the published register transcribed independently; every constant in every run", "Exhaustive over the constants; trusts the transcription of the published values.")
prop("C27", "Objects are equal exactly when what they denote is",
     "Ellipsoids are equal exactly when their semi-axes and inverse flattenings are, whatever their names; prime meridians exactly when their longitudes are, whatever their names, -pi and pi being the same; datums exactly when identifier, ellipsoid and meridian are equal; CRS exactly when identifier, datum, axes with units, and (for projected ones) projection method with every parameter are equal. Equality is symmetric, clones are equal, and every object returns the name, identifier, dimension and components it was built with.",
     [I, C], "all pairs of objects that differ in at most one component", "The tests compare a few objects.",
     ["geodesy/ellipsoid.rs", "geodesy/prime_meridian.rs", "geodesy/geodetic_datum.rs", "crs/geocentric.rs", "crs/geographic.rs", "crs/projected.rs", "projections/mod.rs"],
     [("PartialEq implementations", "geodesy, crs, projections")],
     "runtime monitor: pairs with exactly one component changed, and pairs with only names changed", DG)
prop("C28", "Intervals of the circle: emptiness, fullness and length are modular",
     "An interval of the circle built from any two finite angles is full exactly for [-pi, pi], empty exactly for [pi, -pi] (after wrapping), and otherwise neither; its length is 0 when empty, a full turn when full, and otherwise the counter-clockwise angle from its lower to its upper bound, in [0, 2 pi], also through the antimeridian. Bounds -pi and pi are the same point for a proper interval, and a single point interval has length 0 and is neither empty nor full.",
     [I], "all pairs of finite bounds", "The tests check a dozen intervals.",
     ["cs/s1.rs"], [("canonical bounds", "Interval")],
     "runtime monitor: modular arithmetic on the wrapped bounds after each call", DG)
prop("C29", "Numerical kernels compute what they are documented to",
     "The error-free sum returns the rounded sum and its exact rounding error; the remainder by a period is the exact one within half a period; Clenshaw summation is the sine series; polynomials evaluate (real or complex argument, both evaluation routines) to their value; complex arithmetic and functions (argument in (-pi, pi]) follow their definitions; iterated correction starts from the initial value and stops only once every component's correction is below its own tolerance, that correction applied.",
     [I], "all finite arguments without overflow", "The tests check a few values.",
     ["math/fp.rs", "math/utils.rs", "math/polynomial.rs", "math/complex.rs"], [("kernels", "math")],
     "runtime oracle: Dekker and double-double arithmetic, exact fmod, definitions; recorded iteration traces", DG)
prop("C30", "Results depend on nothing but the arguments",
     "Calling any operation (conversions, projections, geodesics, distances, transformations, axes, texts, line strings) with the same arguments gives bit-identical results whatever was called before, in whatever order, on the same or on identically built objects, in a single thread or concurrently in several threads (on shared or own objects), and in a new process. Objects that differ in one parameter but share name or identifier are never mixed up.",
     [I, H, S], "all call histories and thread interleavings", "The tests call each function once or twice in one thread.",
     ["geodesy/geodetic_datum.rs", "geodesy/ellipsoid.rs", "geodesy/geodesics/mod.rs", "projections/mod.rs", "transformations/xyz.rs", "crs/mod.rs", "geometry/coordinate/curve/line_string.rs"],
     [("no global or interior mutable state", "whole crate")],
     "offline comparison of recorded results of the same calls under different histories, thread schedules and processes", "Four threads on eight cores and random histories; bit-for-bit on one machine and binary. Data races are looked for by C31.")
prop("C31", "No memory error, data race or other undefined behaviour",
     "No use of the public interface, from one or several threads, with coordinate slices of any length (shorter or longer than the dimension), any numbers and any length along a curve, reads or writes outside of the memory it was given, uses uninitialized memory, races or otherwise executes undefined behaviour: at worst it panics or returns an error.",
     [I, H, S, PR], "all programs using the public API", "The tests run without any checker of memory or races.",
     ["lib.rs", "cs/geodetic.rs", "cs/cartesian/projected.rs", "cs/cartesian/geocentric.rs", "geometry/coordinate/curve/line_string.rs", "geometry/primitive/curve.rs", "transformations/xyz.rs"],
     [("safe Rust with bounds checked indexing", "whole crate")],
     "AddressSanitizer (builds with and without debug assertions), ThreadSanitizer (instrumented std) and Miri over the executions of all properties and a wrong-length-slices workload", "Sanitizers see the executions made (about five million under ASan, 1.8 million under TSan, 1400 under Miri per quick run).")
prop("C32", "The sample_s2 tool prints the requested samples of the ellipsoid",
     "sample_s2 prints exactly the requested number of lines, each with the coordinates of the requested type: geocentric points lying on the requested ellipsoid in the requested length unit; or longitude and latitude of such points in the requested angle unit; with heights, uniform in -1500 m to 30000 m, in the requested length unit. The points come from uniform points of the unit sphere (longitude uniform, sine of the reduced latitude uniform, independent), whatever the options.",
     [I, C], "all option combinations", "There is no test of the program.",
     ["bin/sample_s2.rs"], [("sampling of the unit sphere and scaling", "s2_to_xyz, s2_to_ll")],
     "offline checker of the program's recorded output: geometry of every line, Kolmogorov-Smirnov statistics of the whole", "Statistical verdicts have a false alarm rate below 1e-17 per run; deviations of the distribution below about 7% are not seen.")

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=p["hook"])
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=a)) + "\n")

hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Expose the crate private XYZ"], capture_output=True, text=True).stdout.split()
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="cfg(geokit_verif)", enable="RUSTFLAGS='--cfg geokit_verif' (only the C22 check builds with it)", source_commits=hook),
         checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p['id']}",
                      evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
         not_applicable=[],
         notes="Every check is runtime monitoring: the real library is executed under directed, hostile and random workloads and an oracle judges every execution. Replays: bash check.sh <id> replay <stream> <idx> with the seed and tier of the report.")
with open("/verif/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
