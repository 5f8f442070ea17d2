REFM = "80-bit model"
ROWS = {
 "C01": ("latitudes x longitudes x altitudes (special, near-special, dense) x 35+ bodies x modes", REFM, "full product; 10x denser thorough"),
 "C02": ("all walks over the frame graph from every frame", REFM, "depth 3-5 -> 4-6 by point family, 11 frames x frame options"),
 "C03": ("tuples over all ENU/NED/NWU/SEZ conversions, observer x direction x distance products", REFM, "d=2 -> 3"),
 "C04": ("matrices and vector conversions: tuples and products", REFM + "; orthonormality", "d=2 -> 3"),
 "C05": ("observer x direction x range products, tuples", REFM, "d=2 -> 3"),
 "C06": ("attitudes incl. gimbal lock x frames x observers", REFM, "full attitude product; d=2 -> 3"),
 "C07": ("headings x offsets x observers", REFM, "d=2 -> 3"),
 "C08": ("every function with `deg`: tuples in both units", "the other unit", "d=2 -> 3"),
 "C09": ("layouts, sizes, number types (all integers, byte orders, float32, longdouble; arrays and scalars), broadcasting (rows against columns, 0-d, empty), positions of special elements", "scalar calls per element", "sizes 1..40; subsets of array arguments <= 2 -> all"),
 "C10": ("functions x layouts x aliasing x read-only x rejected calls; every executed line", "arguments and process state unchanged, from two process states that differ in every component", "d=1..2"),
 "C11": ("ordered pairs of calls within and across functions; cache histories; changed arguments", "fresh-process result, bitwise", "pairs adjacent and first; depth 3 -> 4"),
 "C12": ("schedules of two threads", "calls alone, bitwise", "1 preemption everywhere, 2 round the caches -> 2 for functions <= 140 steps, bytecode steps"),
 "C13": ("tuples x three installations; mathfun helpers", "the other installations", "d=2 -> 3"),
 "C14": ("ways of giving an ellipsoid; scaling by powers of two; calls with the default body exchanged", "bit-identity; scaling; non-interference", "d=2 -> 3 for small functions"),
 "C15": ("catalogue; ladder of axes; construction histories", "published constants, rational arithmetic", "histories to the depth of `c15.tasks`"),
 "C16": ("pairs of points incl. antipodal ladders x flattenings", "GeographicLib", "products; denser"),
 "C17": ("starts x distances x azimuths; round trip", "GeographicLib", "products; denser"),
 "C18": ("pairs incl. the astroid round the antipode, 5 scales", "GeographicLib, also by following the answer", "products; denser"),
 "C19": ("starts x azimuths x distances; legs, reversal", "GeographicLib", "products; denser"),
 "C20": ("end-point pairs x counts", "GeographicLib", "products"),
 "C21": ("all 3- and 4-vertex polygons over alphabets; scales; pole-enclosing", "GeographicLib; relabelling", "11 points; 10 shapes x 7 places x 5 scales"),
 "C22": ("pairs below 89.5 degrees; azimuth ladders at east-west", REFM + " (quadrature)", "products"),
 "C23": ("latitude pairs, longitude pairs, triples", REFM + " (quadrature)", "products"),
 "C24": ("latitudes x ladder of flattenings, all orders distinguishable", "definitions by quadrature/bisection", "dense"),
 "C25": ("latitudes x bodies", "definitions", "dense"),
 "C26": ("bodies x methods x pairs", "definitions", "products"),
 "C27": ("latitudes x heights from half-way to the centre to GEO", REFM, "products"),
 "C28": ("positions; vectors one rounding off in every sign pattern", REFM, "products"),
 "C29": ("pairs, triples, quadruples of unit vectors; ladder of separations from 6 rad to 1e-9", "great-circle geometry, 80-bit", "11-32 vectors -> 14-32"),
 "C30": ("every 10th -> 2nd day 1972-2050 x UT1 x pole x vectors", "ERFA", "days; all octants"),
 "C31": ("instants x parameters x states", "sixth-order stencil of the position transform", "products"),
 "C32": ("parameter combinations x observers x instants x positions", "composition of elementary conversions", "products"),
 "C33": ("every day of years 1-9999; leap-second boundaries; all UTC offsets x every function of a time x its options; notations", "calendar, official table", "complete in days; times of day rotate -> all"),
 "C34": ("days x longitudes x UT1", "ERFA", "every 3rd day -> every day"),
 "C35": ("directions x observers x instants", "80-bit spherical triangle", "full product"),
 "C36": ("all direction pairs incl. 1e-12 degree offsets", "80-bit", "full product"),
 "C37": ("observers x azimuths x tilts bracketing the horizon", "80-bit quadratic", "full product"),
 "C38": ("commands x arguments x output modes x spellings (also lists, special and malformed numbers) x installations", "library called directly", "d=1, 2 -> 3 configuration deviations"),
 "C39": ("violations x positions x shapes x units x installations", "documented errors", "complete over the documented domains"),
 "C40": ("tuples x group of shifts, turns, reflections", "equivariance", "d=2 -> 3"),
 "C41": ("multisets of <= 4 -> 5 points, all orders for 3", REFM, "multisets"),
 "C42": ("signed magnitudes 1e-300..1e300, octants", REFM, "full product"),
}
CAUGHT = {
 "c09-vdist-antimeridian-array": ["C09", "C16"], "c33-leap-boundary": ["C33"], "c30-nutation-sign": ["C30", "C34"], "c29-intersection-side": ["C29"],
 "c24-rectifying-high-order": ["C24", "C23", "C22"], "c20-line-vectors-radians": ["C08"], "c06-geodetic2body-nwu": ["C06", "C02"],
 "c14-euler-default-ellipsoid": ["C14", "C26"], "c13-scalar-trim": ["C13", "C05"],
 "c11-geodesic-cache-key": ["C11"], "c12-geodesic-scratch": ["C12"], "c12-cache-clear-race": ["C12"], "c38-precision-zero": ["C38"],
 "c39-loxodrome-array-distance": ["C39"],
 "c05-elevation-asin": ["C05"], "c17-any-all": ["C17", "C09"], "c18-equator-antipodal": ["C18"], "c19-flat-bodies": ["C19"],
 "c21-clockwise-large": ["C21"], "c22-course-threshold": ["C22"], "c23-turns": ["C23"], "c26-near-sphere": ["C26"], "c09-fortran-order": ["C09"],
 "c11-fold": ["C11", "C33"], "c14-meanm": ["C14", "C41"], "c32-aer2eci-yp": ["C32"], "c33-february": ["C33", "C30"], "c34-list-offset": ["C34"],
 "c41-authalic-inverse": ["C41", "C24"], "c42-hypot": ["C42"],
 "c04-cos-from-sin": ["C04"],
 "c07-heading-sign": ["C07"],
 "c08-tilt-pi": ["C08", "C37"],
 "c29-lerp": ["C29"],
 "c35-ra-mod": ["C35"],
 "c24-isometric-eps": ["C24"],
 "c38-int-args": ["C38"],
 "c23-departure-min": ["C23"],
 "c34-lon-wrap": ["C34"],
 "c36-clip": ["C36"],
 "c03-observer-shortcut": ["C03"],
 "c33-julian-calendar": ["C33"],
 "c34-fmod": ["C34"],
 "c19-negative-distance": ["C19"],
 "c10-warnings": ["C10"],
 "c12-last-rotation": ["C12"],
 "c37-tangent-hit": ["C37"],
 "c06-gimbal": ["C06"],
 "c17-lon-tau": ["C17"],
 "c39-los-all": ["C39"],
 "c09-lox-ew-side": ["C09", "C22"],
 "c20-line-npts-accum": ["C20"],
 "c15-name-case": ["C15"],
 "c03-large-h0": ["C03"],
 "c09-minimum": ["C09"],
 "c33-offset-seconds": ["C33"],
 "c33-dt64ns": ["C33"],
 "c19-wrap-start": ["C19"],
 "c12-shared-coeff": ["C12"],
 "c02-nwu-ellipsoid": ["C02", "C06", "C14"],
 "c33-aware-dut1": ["C33"],
 "c16-two-poles": ["C16", "C09"],
 "c31-array-coriolis": ["C31"],
 "c33-iso-offset": ["C33"],
 "c34-dut1-ms": ["C34"],
 "c34-dut1-us": ["C34"],
 "c11-site-cache": ["C11"],
}
