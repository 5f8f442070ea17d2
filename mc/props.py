"""Single source of /verif/properties.jsonl and of the check list in MANIFEST.json.

`python3 mc/props.py` rewrites both files.
"""
import json
import os

S = "src/pymap3d/"

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms[(name, where)]
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    files = [S + f for f in files]
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})


ARR = "array, scalar, degree and radian calls, with and without NumPy"

prop("C01", "geodetic2ecef and ecef2geodetic are exact and mutually inverse",
     "geodetic2ecef(lat, lon, alt) is the point at signed height alt along the outward normal of the ellipsoid at (lat, lon), to 1e-8 m for an Earth-sized body (plus 1e-15 of the altitude). "
     "ecef2geodetic returns lat in [-90, 90], lon in [-180, 180] and a height, negative exactly for points inside the ellipsoid, whose geodetic2ecef image is the input position to within 2e-8 m plus rounding, for every point outside the focal disc with alt >= -b/2, including the poles, the rotation axis, the equator and the antimeridian (its accuracy far from the surface falls short of this, a recorded finding). "
     "Both hold for every ellipsoid, and for scalars, arrays, degrees, radians and the NumPy-free build alike.",
     ["inputs", "configurations"],
     "every position (lat, lon, alt) of any altitude from deep inside the ellipsoid to beyond geostationary orbit, every ellipsoid, " + ARR,
     "Tests check a handful of positions, nearly all within 10 km of the WGS84 surface, with tolerances of metres; the poles, deep interior, high orbit, other ellipsoids and radian mode are hardly sampled.",
     ["ecef.py", "ellipsoid.py"],
     [("closed form on the normal", "ecef.py:geodetic2ecef"), ("You (2000) closed form, pole and inside/outside cases, scalar and array twins", "ecef.py:ecef2geodetic")],
     observe=["pymap3d.geodetic2ecef", "pymap3d.ecef2geodetic"])

prop("C02", "Every chain of frame conversions yields the same physical position",
     "Take a physical point near an observer and convert it along any sequence of conversions between geodetic, ECEF, ENU, NED, NWU, SEZ, AER, downrange/crossrange/above, body (any reference frame), spherical, n-vector+height and ECI coordinates with one observer, ellipsoid, attitude, heading and time. "
     "Whatever the route, the final coordinates denote the same physical point to within 0.1 micrometre (on an Earth-sized body) per conversion (1 mm per azimuth/elevation/range conversion when a component is under 1 mm), and two routes to the same frame agree.",
     ["inputs", "histories"],
     "every sequence of conversion functions connecting the frames, every point, observer, attitude, ellipsoid and angle unit",
     "Tests check single functions and a few direct inverse pairs at one observer (42, -82, 200); there are thousands of routes of length 3 and more, and several frames have independent direct and composed implementations that must agree.",
     ["aer.py", "enu.py", "ned.py", "nwu.py", "sez.py", "dca.py", "body.py", "ecef.py", "eci.py", "spherical.py", "nvector.py"],
     [("composition of elementary conversions", "aer.py:geodetic2aer"), ("frame dispatch", "body.py:ecef2body"), ("wrappers with sign and axis swaps", "ned.py:ned2geodetic")])

prop("C03", "ENU, NED, NWU and SEZ positions follow the physical axes",
     "For a target and an observer, the ENU coordinates returned by ecef2enu and geodetic2enu are the components of the vector from observer to target along the geodetic east, north and up directions at the observer on the given ellipsoid, and NED, NWU and SEZ are the same vector with the axes their names say. "
     "The inverse functions to ECEF and geodetic return the target again; all to within 1e-8 m plus 1e-15 of the lengths involved.",
     ["inputs", "configurations"],
     "every target and observer position including poles, antimeridian, coincident points and antipodes, every ellipsoid, " + ARR,
     "Tests use one observer and one target on WGS84 and a tolerance of metres to millimetres.",
     ["ecef.py", "enu.py", "ned.py", "nwu.py", "sez.py"],
     [("observer-to-target difference rotated to local axes", "ecef.py:ecef2enu"), ("axis permutation wrappers", "nwu.py:ecef2nwu")])

prop("C04", "Direction vectors and rotation matrices agree with the local frames",
     "For every observer latitude and longitude the *_matrix functions for ENU, NED, NWU and SEZ return proper orthonormal 3x3 rotations (orthonormal to 1e-14, determinant +1), whose rows are the physical axes of the frame; the two directions are transposes. "
     "The vector functions ecef2enuv, ecef2nedv, ecef2nwuv, ecef2sezv, enu2ecefv, nwu2ecefv, sez2ecefv, enu2uvw and uvw2enu equal multiplication by those matrices and preserve length, without any dependence on position offsets.",
     ["inputs"],
     "every observer latitude/longitude, every vector from zero to 1e9 in any octant, " + ARR,
     "Tests check single values; orthonormality and agreement of function and matrix form at every latitude and longitude is a universally quantified algebraic identity.",
     ["ecef.py", "enu.py", "ned.py", "nwu.py", "sez.py", "frames.py"],
     [("hand-expanded rotations", "ecef.py:ecef2enuv"), ("hand-expanded inverse rotation", "enu.py:enu2ecefv"), ("matrix builders", "frames.py:_ecef2enu_rotation")])

prop("C05", "Azimuth, elevation and slant range describe the line of sight",
     "enu2aer, ned2aer, nwu2aer, sez2aer, ecef2aer and geodetic2aer return azimuth clockwise from true north in [0, 360) (up to rounding), elevation above the local horizontal plane in [-90, 90] and the Euclidean distance, where a component below 1 mm may be taken as zero; straight up, straight down and coincident points give finite values. "
     "aer2enu, aer2ned, aer2nwu, aer2sez, aer2ecef and aer2geodetic return the point at that direction and distance, for azimuths of any real value.",
     ["inputs", "configurations"],
     "every direction in all octants, distances from 0 to 1e12 m, every observer and ellipsoid, " + ARR,
     "Tests use azimuth 33, elevation 70, range 1 km and a few axis-aligned values; quadrant, wrap-around, zenith and threshold behaviour is a matter of all directions.",
     ["aer.py", "enu.py", "ned.py", "nwu.py", "sez.py"],
     [("quadrant-correct angles with 1 mm trimming", "enu.py:enu2aer"), ("spherical to local Cartesian", "enu.py:aer2enu")])

prop("C06", "Body frame is the intrinsic z-y-x yaw, pitch, roll attitude",
     "For every attitude the body matrices are proper orthonormal rotations equal to Rx(roll)Ry(pitch)Rz(yaw) in the aerospace convention relative to NED (body x forward, y right, z down), and the ENU, NWU and SEZ variants describe the same physical attitude. "
     "body2X inverts X2body for vectors, and the ECEF and geodetic variants equal the local-frame variants applied to the observer-to-target vector, for each of the frame options; results are within 1e-8 m or 1e-14 relative.",
     ["inputs", "configurations"],
     "all yaw, pitch, roll values including gimbal lock and angles beyond one turn, all frames, vectors, observers and ellipsoids, " + ARR,
     "Tests cover a few single-axis rotations at one observer; sign and ordering errors can cancel for single-axis attitudes.",
     ["body.py", "frames.py"],
     [("rotation composition", "frames.py:_ned2body_rotation"), ("frame dispatch", "body.py:ecef2body"), ("vector rotation without observer offset", "body.py:ecef2bodyv")])

prop("C07", "Downrange/crossrange/above is heading-rotated ENU",
     "enu2dca and ned2dca return downrange along the heading (clockwise from north), crossrange positive to the left of it and height above, an isometry of ENU; dca2enu and dca2ned are its exact inverses. "
     "ecef2dca, geodetic2dca, aer2dca and their inverses describe the same point, all to 1e-8 m plus 1e-15 of the lengths involved.",
     ["inputs", "configurations"],
     "all headings including negative and beyond 360 degrees, all positions, observers and ellipsoids, " + ARR,
     "Tests sample one heading and one point per function.",
     ["dca.py"],
     [("planar rotation by the heading", "dca.py:enu2dca"), ("composed conversions", "dca.py:geodetic2dca")])

prop("C08", "The deg flag changes only the units of angles",
     "For every public function with a deg flag, calling it with deg=False and angles in radians gives the same lengths and vectors, and the same angles in radians, as calling it with deg=True and the angles in degrees, up to the rounding of the unit conversion; the default is degrees. "
     "This covers every angular argument and result, and lengths, vectors, times and fractions are never converted.",
     ["inputs", "configurations"],
     "every function with a deg flag, every value of its arguments, every other option",
     "Tests exercise deg=False for a minority of the functions and mostly through a shared code path; a missed or doubled conversion in one function or one branch is invisible to them.",
     ["ecef.py", "aer.py", "enu.py", "lox.py", "vincenty.py", "karney.py", "latitude.py", "rcurve.py", "rsphere.py", "los.py", "haversine.py", "nvector.py", "spherical.py", "body.py", "dca.py"],
     [("explicit conversion at function entry and exit", "latitude.py:geodetic2isometric"), ("forwarding of deg to nested calls", "aer.py:ecef2aer"), ("deg handling around degree-native core", "karney.py:geodesic_inverse")])

prop("C09", "Array arguments are processed element by element",
     "For every function that accepts arrays, the result for an array of any size and shape (empty, one-element, 2-D, non-contiguous, Fortran-ordered, integer, read-only, or broadcast against scalars or other arrays) equals, element by element and in the shape of the input (of the inputs it depends on), the result of calling it on each element alone, to within rounding (1e-12 relative); only one-element results may come back as scalars, and the ECI functions may refuse to mix shapes. "
     "An exceptional element (NaN, pole, coincident or antipodal pair, non-intersecting ray) never changes the results of its neighbours.",
     ["inputs", "configurations"],
     "every array-capable function, every shape and memory layout, every position of a special element within the array",
     "Tests compare arrays to scalars for few functions and with uniform arrays; masked branches, convergence loops shared by all elements and shape handling depend on the mixture of elements.",
     ["ecef.py", "enu.py", "vincenty.py", "lox.py", "latitude.py", "los.py", "eci.py"],
     [("boolean-mask branches", "ecef.py:ecef2geodetic"), ("shared iteration with per-element freeze", "vincenty.py:vdist"), ("squeeze of results", "lox.py:loxodrome_inverse")])

prop("C10", "Calls have no side effects on arguments or on process state",
     "No public function modifies its array, list, Ellipsoid or datetime arguments, and read-only arrays are accepted. "
     "No call changes process-wide state that other code can see: warning filters, NumPy error handling, logging configuration, random generator state, the working directory, the environment, or the ellipsoid catalogue.",
     ["inputs", "histories"],
     "every public function, every argument combination including poles and other special branches that patch values in place",
     "Tests never look at the arguments after a call; in-place patches occur only on special elements (poles, sub-millimetre components).",
     ["enu.py", "vincenty.py", "ecef.py", "latitude.py", "lox.py", "los.py"],
     [("copies before masked writes", "vincenty.py:vdist"), ("out-of-place trimming", "enu.py:enu2aer")])

prop("C11", "Results never depend on the history of earlier calls",
     "The result of every public call is a function of its arguments alone: after any sequence of other calls in the same process, including calls differing in a single argument, ellipsoid, angle unit or option, calls that raised an error, cache clearing, modification of previously returned arrays, and custom ellipsoids sharing a name or an axis with another, a call returns bit for bit what it returns in a fresh process.",
     ["histories"],
     "all call sequences over an alphabet of calls of every public function, with colliding arguments",
     "Each test makes few calls and compares with a tolerance; a stale or incompletely keyed cache shows only for particular sequences.",
     ["ellipsoid.py", "karney.py"],
     [("cached ellipsoids by name", "ellipsoid.py:_from_name_cached"), ("geodesic solver cache keyed by axis and flattening", "ellipsoid.py:get_cached_geodesic"), ("cache reset", "ellipsoid.py:clear_ellipsoid_caches")],
     state=[("ellipsoid cache", "named ellipsoids built so far", "ellipsoid.py:_from_name_cached"), ("geodesic cache", "solver per (semimajor axis, flattening)", "ellipsoid.py:_geodesic_cache")])

prop("C12", "Concurrent calls from several threads behave as if run one after another",
     "When two threads call public functions at the same time, each call returns exactly what it returns alone, no call raises, and later calls are unaffected, under every interleaving of the two threads' steps, including the first use of an ellipsoid or of a geodesic solver and clearing the caches meanwhile.",
     ["schedules"],
     "all interleavings of two concurrent calls, for every public function and for pairs that share lazily created state",
     "The tests are single-threaded, and free-running threads hit a given interleaving with negligible probability.",
     ["ellipsoid.py", "karney.py", "vincenty.py", "ecef.py"],
     [("check-then-insert geodesic cache", "ellipsoid.py:get_cached_geodesic"), ("no module-level scratch state", "karney.py:_Geodesic")],
     state=[("geodesic cache", "shared dictionary filled on first use", "ellipsoid.py:_geodesic_cache")])

prop("C13", "Results are the same with and without NumPy and Astropy",
     "Every function that runs in a plain-Python installation returns for scalar arguments the same values (1e-12 relative, or 1e-9 m on an Earth-sized body / 1e-13 rad; correspondingly looser where the function itself amplifies rounding) as in an installation with NumPy, and with NumPy and Astropy when force_non_astropy is set; the same calls succeed and the same calls are rejected. "
     "Optional packages only add array support and more precise Earth orientation.",
     ["configurations", "inputs"],
     "every public function usable without NumPy, every scalar argument tuple of the lattices, the three installation configurations",
     "The suites run separately per configuration against the same loose expected values and are never compared with each other; fallback definitions are exercised at few points.",
     ["mathfun.py", "ecef.py", "enu.py", "vincenty.py", "latitude.py", "lox.py", "eci.py", "_dummy.py"],
     [("math fallbacks", "mathfun.py"), ("scalar twins chosen by NameError/TypeError", "ecef.py:ecef2geodetic"), ("dispatch on imported packages", "eci.py:eci2ecef")])

prop("C14", "Every function honours exactly the ellipsoid it is given",
     "For every function with an ell argument, omitting it (or passing None) means WGS84, and the result depends only on the axes of the ellipsoid passed, not on its name, model or origin. "
     "Scaling both axes and all lengths by the same power of two scales all resulting lengths by it and leaves all angles unchanged, and the given ellipsoid is used at every internal step: results differ between bodies exactly as the exact model for each body predicts.",
     ["inputs", "configurations"],
     "every function with an ell argument, every ellipsoid of the catalogue and custom ones, every argument value",
     "Tests use other ellipsoids for a handful of functions; a nested call that forgets to forward ell still passes on WGS84.",
     ["ellipsoid.py", "aer.py", "los.py", "lox.py", "vincenty.py", "karney.py", "spherical.py", "nvector.py", "body.py", "dca.py"],
     [("default resolution", "ellipsoid.py:resolve_ellipsoid"), ("forwarding of ell", "lox.py:loxodrome_inverse")])

prop("C15", "The ellipsoid catalogue and derived parameters are consistent",
     "For every catalogued model and every valid pair of axes, flattening, third flattening and eccentricity satisfy their defining identities with the axes to rounding, from_name returns the catalogued axes with equal parameters on every call and after cache clearing, and unknown names raise KeyError. "
     "The published defining constants of the standard Earth ellipsoids hold (e.g. WGS84 a = 6378137 m, 1/f = 298.257223563), and oblate order a >= b holds for every model; the axes of every body are in metres and agree with its published axes within 0.2 percent (model io is a recorded finding).",
     ["inputs", "histories"],
     "every catalogue entry, every pair of axes from sphere to strongly oblate, every construction history (named, custom, cleared, subclassed)",
     "Tests compare a few models' conversions; parameter identities over all pairs of axes and construction sequences are not sampled.",
     ["ellipsoid.py"],
     [("parameter derivation", "ellipsoid.py:Ellipsoid.__init__"), ("catalogue", "ellipsoid.py:Ellipsoid.models"), ("cached construction", "ellipsoid.py:_from_name_cached")],
     state=[("ellipsoid cache", "named ellipsoids built so far", "ellipsoid.py:_from_name_cached")])

prop("C16", "vdist gives geodesic distance and azimuth for all non-antipodal pairs",
     "For any two points separated by less than 177.4 degrees (178.5 degrees less 320 degrees times the flattening on other bodies), vdist returns the geodesic distance within 0.1 mm on Earth ellipsoids (0.8 mm from or to a pole, which is moved by 1e-10 rad; 0.3 a f^4 on flatter bodies) and a forward azimuth from 0 to 360 degrees that points along the geodesic to the same accuracy. "
     "Distance is symmetric, zero for coincident points, unaffected by adding full turns to longitudes, and nearly antipodal pairs on Earth-like ellipsoids still return a finite distance near half a turn and not exceeding half the equator plus 1 percent, after finitely many steps.",
     ["inputs"],
     "every pair of points including poles, equator, same meridian, antimeridian crossings, coincident and tiny separations, every ellipsoid, " + ARR,
     "Tests check some dozens of pairs; iteration, quadrant and wrap-around branches depend on the pair.",
     ["vincenty.py"],
     [("Vincenty inverse iteration with antipodal fallback", "vincenty.py:vdist")])

prop("C17", "vreckon reaches the point at the given distance along the geodesic",
     "vreckon(lat, lon, rng, az) returns the point on the geodesic from the start in the given azimuth at the given distance, within 0.2 mm on Earth ellipsoids (0.8 mm from a pole; 0.3 a f^4 per half turn on flatter bodies) for distances up to twice round the Earth and any azimuth, with latitude in [-90, 90] and longitude in [0, 360). "
     "It inverts vdist: travelling the returned distance along the returned azimuth arrives at the second point with the accuracy stated for the two functions for pairs not nearly antipodal; zero distance returns the start.",
     ["inputs"],
     "every start including poles, azimuth of any real value, distance from 0 to two circumferences, every ellipsoid, " + ARR,
     "Tests check a few starts and azimuths with loose tolerances.",
     ["vincenty.py"],
     [("Vincenty direct iteration", "vincenty.py:vreckon")])

prop("C18", "geodesic_inverse solves the inverse geodesic problem for all pairs",
     "For every pair of points, including coincident, polar, equatorial, meridional, antimeridian and exactly or nearly antipodal pairs, geodesic_inverse returns the shortest geodesic distance within 2.5e-8 m (Earth; 4e-15 of the size otherwise) and azimuths in [-180, 180] at both ends of a shortest geodesic, so that following the first azimuth for that distance arrives at the second point with the second azimuth. "
     "Distance is symmetric and invariant under reflection and full turns of longitude.",
     ["inputs"],
     "all pairs of points on every oblate ellipsoid of the catalogue, in degrees and radians, with and without NumPy",
     "Tests check a few city pairs and round trips; the hard region (within 1 degree of the antipode), poles and equator select different branches and iterations.",
     ["karney.py"],
     [("Karney inverse with starting guess, Newton and bisection", "karney.py:_Geodesic._Inverse")])

prop("C19", "geodesic_direct solves the direct geodesic problem for all inputs",
     "For every start (including the poles), azimuth and distance (zero, negative, or several times round the body), geodesic_direct returns the end point within 1e-8 m on Earth (2e-15 of the size per half turn otherwise) with latitude in [-90, 90], longitude in [-180, 180] and the forward azimuth there. "
     "Splitting a path into two consecutive legs, reversing it, or adding full turns to longitude or azimuth gives consistent results.",
     ["inputs"],
     "all starts, azimuths and distances on every ellipsoid of the catalogue, in degrees and radians, with and without NumPy",
     "Tests check a few cases; series in the flattening and branch choices at poles, equator and cardinal azimuths are not sampled together.",
     ["karney.py"],
     [("Karney direct series", "karney.py:_Geodesic._Direct")])

prop("C20", "geodesic_line and track2 return equally spaced points on the geodesic",
     "geodesic_line and track2 return exactly npts points, the first and last being the end points (within 2 mm for track2, 1e-7 m for geodesic_line), lying in order on the shortest geodesic between them at equal distances, for every npts from 2 up. "
     "This holds across the antimeridian (longitudes understood modulo full turns), over the poles, along the equator, for degrees and radians and for every ellipsoid.",
     ["inputs"],
     "all non-antipodal pairs of end points, all point counts, every ellipsoid",
     "Tests check end points of one or two tracks.",
     ["karney.py", "vincenty.py"],
     [("inverse then repeated direct", "karney.py:geodesic_line"), ("vdist then vectorised vreckon", "vincenty.py:track2")])

prop("C21", "geodesic_area returns the polygon's true perimeter and area",
     "For every simple polygon of three or more vertices, geodesic_area returns as perimeter the sum of the geodesic edge lengths, closing edge included, within 1e-8 m per edge (Earth), and as area the area enclosed by its geodesic edges within 0.1 m^2 per edge (Earth; up to 0.4 m^2 for edges of many thousand kilometres, whose rounding is larger), positive for clockwise vertex order, modulo the whole surface. "
     "Rotating the vertex list, adding full turns to longitudes, or changing the angle unit changes neither; reversing the vertex order changes the sign of the area.",
     ["inputs"],
     "all polygons including thin, polar, antimeridian-crossing and degenerate ones, every ellipsoid",
     "Tests check two polygons with very loose bounds.",
     ["karney.py"],
     [("edge accumulation", "karney.py:geodesic_area")])

prop("C22", "Rhumb-line inverse and direct are right and mutually inverse",
     "loxodrome_inverse returns the length and azimuth in [0, 360) of the shorter constant-azimuth path between two points, going the short way in longitude also across the antimeridian, and loxodrome_direct returns the point reached on a given azimuth and distance; both agree with the exact rhumb line of the ellipsoid within 0.1 mm on Earth for latitudes below 89 degrees, losing accuracy only in proportion to the nearness of due east-west courses. "
     "Meridional, equatorial and parallel courses and coincident points are exact to the same bound, and direct applied to the inverse's result arrives at the second point.",
     ["inputs"],
     "all pairs of points below 89 degrees latitude in all relative directions, all azimuths and distances, every Earth-like ellipsoid, " + ARR,
     "Tests check some pairs in one hemisphere at 1e-6 relative or worse; wrap-around, east-west switch-over and southern/western quadrants vary with the pair.",
     ["lox.py", "latitude.py", "rsphere.py"],
     [("isometric latitude difference and quadrant", "lox.py:loxodrome_inverse"), ("rectifying latitude step", "lox.py:loxodrome_direct")])

prop("C23", "Meridian arcs and departures are true lengths on the ellipsoid",
     "meridian_arc(lat1, lat2) is the length of the meridian between the latitudes and meridian_dist(lat) that from the equator, within 0.1 mm on Earth ellipsoids: non-negative, symmetric and additive over adjacent arcs. "
     "departure(lon1, lon2, lat) is the length of the shorter arc of the parallel between two longitudes, unaffected by full turns and order.",
     ["inputs"],
     "all latitude pairs, all longitude pairs, every ellipsoid, " + ARR,
     "Tests compare a few values with 1e-3 to 1e-6 relative tolerance.",
     ["lox.py", "latitude.py", "rcurve.py", "rsphere.py"],
     [("rectifying radius times rectifying-latitude difference", "lox.py:meridian_arc"), ("minimum of both ways round", "lox.py:departure")])

prop("C24", "Auxiliary latitudes have their defining values and invert",
     "Geodetic latitude converted to geocentric, parametric, isometric, conformal, rectifying and authalic latitude has the value given by that latitude's mathematical definition on the given ellipsoid, within 1e-9 rad for Earth-like flattening (series latitudes within the order of the published series, scaling with flattening, otherwise; 2e-8 rad for the conformal latitude within a degree of the poles), odd and increasing in latitude with the equator and poles fixed (isometric: infinite within 1e-9 rad of the poles). "
     "Each inverse function returns the original geodetic latitude to the same accuracy; geodetic2geocentric is exact at every altitude, its inverse at altitude only to first order, 0.3 e^6 alt/a.",
     ["inputs"],
     "every latitude from pole to pole, altitude where applicable, every ellipsoid, " + ARR,
     "Tests check about ten latitudes on one ellipsoid against tabulated values.",
     ["latitude.py"],
     [("closed forms and series", "latitude.py:geodetic2rectifying"), ("pole handling", "latitude.py:geodetic2isometric")])

prop("C25", "Radii of curvature and geocentric radius are the ellipsoid's",
     "For every latitude, rcurve.meridian, transverse, parallel and geocentric_radius equal the meridional and prime-vertical radii of curvature, the radius of the parallel circle and the distance of the surface point from the centre, within 1e-14 relative (1e-9 of the axis near the poles for the parallel), even in latitude. "
     "They are consistent with the positions given by geodetic2ecef.",
     ["inputs"],
     "every latitude, every ellipsoid, " + ARR,
     "Tests check one or two latitudes per function.",
     ["rcurve.py"],
     [("closed forms", "rcurve.py:meridian")])

prop("C26", "Mean-radius functions return their defining means",
     "rsphere.eqavol, authalic, rectifying, triaxial, biaxial, curve and euler return the radius of the equal-volume, equal-area and equal-meridian sphere, the arithmetic or geometric mean of the axes or of the radii of curvature at a latitude, and the normal-section radius of curvature in the direction of the second point at mid-latitude, within 1e-14 relative for closed forms (the authalic radius loses digits as 1/e for nearly spherical bodies) and the published truncation (0.12 f cubed for the equal-volume, 0.002 f^4 for the rectifying radius) for series. "
     "Every mean lies between the extreme radii and equals the radius for a sphere.",
     ["inputs"],
     "every ellipsoid from sphere to Saturn and beyond, every latitude and point pair, both methods, degrees and radians, with and without NumPy",
     "Tests compare single values on WGS84.",
     ["rsphere.py"],
     [("closed forms and series", "rsphere.py:authalic"), ("method selection", "rsphere.py:curve")])

prop("C27", "Geodetic and geocentric spherical coordinates convert exactly",
     "geodetic2spherical returns the geocentric latitude, the unchanged longitude and the distance from the centre of the geodetic position, and spherical2geodetic inverts it for every position outside the evolute-like core, each within 1e-8 m (Earth) of the same physical point, at the poles, the equator and for deep and high altitudes. "
     "geoc2geod gives the geodetic latitude for a geocentric latitude and distance within the third order of the flattening, 1.7 f^3 a/r.",
     ["inputs"],
     "every position with altitude above -b/2 up to beyond geostationary orbit, every ellipsoid, " + ARR,
     "Tests check nine points on or near the surface.",
     ["spherical.py", "latitude.py"],
     [("closed-form Vermeille-type inverse", "spherical.py:spherical2geodetic"), ("second-order series", "latitude.py:geoc2geod")])

prop("C28", "n-vectors are the unit normals of geodetic positions",
     "geodetic2nvector returns the unit outward normal at (lat, lon), nvector2geodetic inverts it, and ecef2nvector and nvector2ecef connect it with the ECEF position at the given height on the given ellipsoid; length is 1 to 4e-16 relative and positions agree within 2e-8 m on Earth, the poles included.",
     ["inputs"],
     "every latitude, longitude, height and ellipsoid, " + ARR,
     "Tests check a few points.",
     ["nvector.py"],
     [("direction cosines", "nvector.py:geodetic2nvector"), ("composition with ECEF", "nvector.py:nvector2ecef")])

prop("C29", "n-vector navigation operations are right on the sphere",
     "On the sphere of the given radius (default: the volumetric mean Earth radius), nvector_distance is the great-circle distance for all separations from zero to antipodal, nvector_interpolate is the point at the given fraction of the arc, nvector_mean the normalised mean direction, nvector_cross_track_distance the signed distance to the great circle (positive to its left), and nvector_intersection a unit vector on both great circles, on the side of the given points. "
     "Distances are symmetric and results are unit vectors.",
     ["inputs"],
     "all pairs, triples and quadruples of points from the lattice, all fractions in [0, 1], all radii",
     "Tests check one or two configurations each.",
     ["nvector.py"],
     [("atan2 of cross and dot", "nvector.py:nvector_distance"), ("slerp with small-angle branch", "nvector.py:nvector_interpolate"), ("hemisphere choice", "nvector.py:nvector_intersection")])

prop("C30", "ECI/ECEF conversion is the Earth's rotation at the given time",
     "With force_non_astropy (or without Astropy), eci2ecef and ecef2eci are mutually inverse proper rotations that agree with the IAU 1976/1980 Earth orientation (precession, nutation, apparent sidereal time, polar motion) within 0.2 arcsecond for 1972 to 2050, UT1 offset and pole coordinates included; with Astropy they agree with it to the same accuracy once the same UT1 offset is supplied. "
     "Lengths are preserved to 1e-14 relative, scalars and arrays of any shape give the same results, and a time-zone-aware time denotes the same instant.",
     ["inputs", "configurations"],
     "every date from 1972 to 2050 and time of day, every position, UT1 offset and pole coordinate",
     "Tests check one date against Astropy at 10 km-class tolerances.",
     ["eci.py", "earth_orientation.py"],
     [("matrix product PM*ST*N*P", "earth_orientation.py:eci_to_ecef_matrix"), ("application to arrays", "eci.py:_apply_rotation")])

prop("C31", "State transforms give the true time derivative",
     "eci2ecef_state and ecef2eci_state return the same positions as the position transforms and velocities equal to the time derivative of the transformed trajectory (within 2.5e-9 of the velocity scale omega r + v with the built-in rotation, 1e-7 with Astropy), and are mutually inverse; a point fixed on Earth gets the inertial velocity omega x r and back zero. "
     "This holds for scalars and arrays of states.",
     ["inputs"],
     "every position, velocity, time and Earth orientation argument, scalar or array",
     "Tests check one state.",
     ["eci.py", "earth_orientation.py"],
     [("rotation rate by central difference", "earth_orientation.py:eci_to_ecef_matrix_rate"), ("transport term", "eci.py:_apply_state_rotation")])

prop("C32", "Earth orientation arguments and time reach every ECI conversion path",
     "eci2geodetic, geodetic2eci, eci2aer and aer2eci equal the composition of the ECI/ECEF rotation for the given time, delta_ut1, xp and yp with the corresponding ECEF conversion on the given ellipsoid and angle unit, and are mutually inverse within 1e-6 m near the surface (the accuracy of ecef2geodetic at high altitude is a recorded finding). "
     "This holds for every combination of the options, also with Astropy absent.",
     ["inputs", "configurations"],
     "every position, observer, time, UT1 offset, pole coordinate, ellipsoid and angle unit; installations with and without Astropy",
     "Tests use default Earth orientation arguments and one observer.",
     ["ecef.py", "aer.py", "eci.py"],
     [("keyword forwarding", "ecef.py:geodetic2eci"), ("keyword forwarding", "aer.py:aer2eci")])

prop("C33", "Times are one UTC instant: Julian date, leap seconds, zones, parsing",
     "juliandate is the exact Julian date (to 1e-9 day) of every datetime in years 1 to 9999 in the proleptic Gregorian calendar; naive times are UTC and an aware time gives the same result as the same instant in UTC in every time-dependent function. "
     "TT-UTC is 32.184 s plus the official leap second count from 1972 on, changing exactly at each announcement instant; str2dt turns ISO 8601 strings, datetimes, datetime64 of any unit and lists of these into the datetimes they denote.",
     ["inputs"],
     "every calendar day of years 1-9999, every instant of the day, every leap second boundary, every UTC offset, every accepted time type",
     "Tests check two or three dates.",
     ["timeconv.py", "sidereal.py", "earth_orientation.py"],
     [("calendar formula", "earth_orientation.py:juliandate"), ("leap second table", "earth_orientation.py:leap_seconds"), ("UTC normalisation", "earth_orientation.py:ensure_utc"), ("type dispatch", "timeconv.py:str2dt")])

prop("C34", "Sidereal time follows Earth rotation",
     "greenwichsrt is Greenwich mean sidereal time of the IAU 1982 model, in [0, 2 pi), within 1e-8 rad plus the rounding of the Julian date; datetime2sidereal is the local apparent sidereal time, i.e. that plus the equation of the equinoxes plus longitude modulo a full turn, within 0.4 arcsecond of the IAU 1982/1994 theory for 1972-2050, with the UT1 offset applied in the NumPy-free path. "
     "It increases with longitude one to one, lists of times give lists, and the Astropy path agrees with the same theory.",
     ["inputs", "configurations"],
     "every Julian date and datetime of 1972-2050, every longitude, every UT1 offset, with and without Astropy",
     "Tests check one date.",
     ["sidereal.py", "earth_orientation.py"],
     [("GMST polynomial", "earth_orientation.py:greenwich_mean_sidereal_time"), ("equation of the equinoxes", "earth_orientation.py:equation_of_equinoxes")])

prop("C35", "azel2radec and radec2azel describe the same sky direction and invert",
     "With force_non_astropy (or without Astropy), azel2radec returns right ascension in [0, 360) (up to rounding) and declination of the direction whose local hour angle is local apparent sidereal time minus right ascension, and radec2azel is its inverse with azimuth in [0, 360), within 1e-9 degree of arc on the sky plus the Julian date's rounding, for every observer including the poles, every direction including zenith and celestial poles, and every UT1 offset. "
     "With Astropy, both are mutually inverse within 1e-6 degree and agree with the built-in path within the known frame and aberration differences (under 1 degree).",
     ["inputs", "configurations"],
     "every azimuth, elevation, observer, time and UT1 offset, with and without Astropy, scalars and arrays of directions",
     "Tests check one direction at one observer at 1 percent tolerance.",
     ["azelradec.py", "vallado.py"],
     [("spherical triangle solution", "vallado.py:azel2radec"), ("dispatch", "azelradec.py:azel2radec")])

prop("C36", "Angular separation is the great-circle angle",
     "anglesep and anglesep_meeus return the great-circle angle between two directions, in [0, 180] degrees, within 2e-6 degree everywhere and 1e-13 relative away from the nearly coincident and antipodal regions where the haversine formula loses digits, symmetric in the two points and invariant under full turns. "
     "haversine(theta) equals (1-cos theta)/2, and Astropy and the fallback agree.",
     ["inputs", "configurations"],
     "all pairs of directions including coincident, antipodal and polar ones, degrees and radians, with and without Astropy, scalars and arrays",
     "Tests check one or two pairs.",
     ["haversine.py"],
     [("haversine formula", "haversine.py:anglesep_meeus"), ("Astropy dispatch", "haversine.py:anglesep")])

prop("C37", "lookAtSpheroid returns the first intersection of the ray with the ellipsoid",
     "For an observer at or above the surface, lookAtSpheroid returns the first point where the ray with the given azimuth and tilt (0 straight down, 90 horizontal) meets the ellipsoid and the distance to it: the point lies on the surface and on the ray within 1e-7 of the ray length plus 1e-3 m and no earlier intersection exists. "
     "If the ray misses, all results are NaN for scalars and for exactly those elements of arrays; negative altitudes raise ValueError.",
     ["inputs"],
     "every observer position, altitude from 0 to geostationary and beyond, azimuth, tilt (including beyond the horizon and upward), ellipsoid, " + ARR,
     "Tests check one look direction set.",
     ["los.py"],
     [("ray-ellipsoid quadratic, smaller root", "los.py:lookAtSpheroid")])

prop("C38", "The command line prints exactly what the library returns",
     "For every function offered by `python -m pymap3d`, the command line prints, as text or JSON, the very values the library function returns for the same arguments, ellipsoid choice, unit flags, times and options, with defaults as in the library. "
     "--precision only rounds printed floats, numbers in JSON round-trip exactly, and every public conversion function is offered.",
     ["inputs", "configurations"],
     "every command, ellipsoid choice, output mode, precision and flag, argument values including negative numbers and exponents, with and without NumPy",
     "Tests run a few commands on WGS84.",
     ["__main__.py", "__init__.py"],
     [("signature-driven argument parser", "__main__.py:_add_parameter_arg"), ("value coercion", "__main__.py:_coerce_value"), ("output formatting", "__main__.py:_emit_result")])

prop("C39", "Documented invalid inputs are rejected, valid limits accepted",
     "Invalid arguments raise the documented error and never a silent result: latitudes beyond 90 degrees (vdist, vreckon, loxodrome_direct, azel2radec, radec2azel), negative distances, negative observer altitude in lookAtSpheroid, fewer than two track points or three polygon vertices, antipodal track ends, unknown methods, sequences or frames, and prolate ellipsoids. "
     "The check covers each element of an array and each angle unit, and the limiting valid values (exactly +-90 degrees, zero distance, zero altitude, two points) are accepted.",
     ["inputs"],
     "every validating function, every position of an invalid element in arrays of any size, both angle units, with and without NumPy, values just inside and just outside the limits",
     "Tests check some scalar cases.",
     ["vincenty.py", "lox.py", "los.py", "vallado.py", "karney.py", "rsphere.py", "frames.py", "body.py", "ellipsoid.py"],
     [("range checks with array and scalar twins", "vincenty.py:vdist"), ("range checks", "lox.py:loxodrome_direct")])

prop("C40", "Conversions respect the symmetries of the ellipsoid",
     "Adding the same angle to all longitudes rotates the result about the axis and changes nothing else, adding full turns to a longitude or azimuth changes nothing, and mirroring all latitudes north-south or all longitudes east-west mirrors the result, for every conversion between geodetic, ECEF, local, line-of-sight, geodesic and rhumb-line quantities, to within rounding.",
     ["inputs"],
     "every conversion function, every argument tuple of the lattices, the group generated by longitude shifts, full turns and the two reflections",
     "Tests sample one hemisphere (north-west) almost exclusively.",
     ["ecef.py", "enu.py", "aer.py", "vincenty.py", "karney.py", "lox.py", "los.py", "spherical.py"],
     [("symmetric formulas", "ecef.py:geodetic2ecef"), ("sign bookkeeping", "karney.py:_Geodesic._Inverse")])

prop("C41", "meanm returns the geographic mean on the ellipsoid",
     "meanm returns the geodetic latitude and longitude of the normalised vector mean of the points' positions on the authalic sphere of the given ellipsoid, within 1e-9 rad (divided by the length of the mean of the unit vectors) for Earth-like flattening, whatever the order and shape of the input arrays; latitudes and longitudes that broadcast against each other denote the points of the grid. "
     "A single point or repeated equal points return that point, and the mean is equivariant under longitude shifts and reflections, across the antimeridian and at the poles.",
     ["inputs"],
     "all finite sets of points (not cancelling out), every ellipsoid, degrees and radians",
     "Tests check one set of points.",
     ["lox.py"],
     [("vector mean on authalic sphere", "lox.py:meanm")])

prop("C42", "Polar, spherical and Cartesian utilities are exact inverses",
     "cart2pol, pol2cart, cart2sph and sph2cart convert between Cartesian and polar or spherical coordinates (azimuth in [-pi, pi], elevation in [-pi/2, pi/2], non-negative radius) within 4e-16 relative and are mutual inverses, for every quadrant and octant, the axes, zero, and magnitudes from 1e-300 to 1e300.",
     ["inputs"],
     "all vectors in all octants over the whole magnitude range, scalars and arrays, with and without NumPy",
     "Tests check single vectors.",
     ["utils.py"],
     [("atan2 and hypot", "utils.py:cart2sph")])


TECH = {}


def manifest():
    from levels import LEVELS  # id -> (technique, level, note)
    checks = []
    na = []
    for p in P:
        i = p["id"]
        if i not in LEVELS:
            na.append({"property": i, "reason": "no check built yet"})
            continue
        t, lv, note = LEVELS[i]
        checks.append({"property": i,
                       "quick_cmd": f"python3 mc/run.py {i} --tier quick",
                       "thorough_cmd": f"python3 mc/run.py {i} --tier thorough",
                       "technique": t, "level": lv, "level_note": note})
    return {"version": 1, "setup_cmd": "python3 mc/setup_check.py", "checks": checks,
            "not_applicable": na,
            "notes": "Bounded exhaustive model checking of the real library code; see DESIGN.md. No hooks in /repo are needed."}


if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps(p) + "\n")
    with open(os.path.join(root, "MANIFEST.json"), "w") as fh:
        json.dump(manifest(), fh, indent=1)
        fh.write("\n")
    print(len(P), "properties")
