"""id -> (technique, level, level_note) of the claimed checks"""
_MC = "model_checking"
_REF = ("The real library code runs on every state; the oracle is an independent 80-bit reference model written from the definitions (mc/refmodel.py). "
        "Exhaustive within the stated lattice only; values between lattice points are not covered. ")
_T = "bounded exhaustive state enumeration of the real code, differential against an extended-precision reference model"
_TG = "bounded exhaustive enumeration of geodesic problems on the real code, differential against an independent implementation (PROJ)"
_GEO = ("The real library code runs on every problem of the lattices; the oracle is GeographicLib in PROJ (15 nm), points compared in 80-bit Cartesian space. "
        "Exhaustive within the stated lattice only. ")
LEVELS = {
    "C01": (_T, _MC, _REF + "Lattices of positions x all catalogue and custom ellipsoids x call modes (array, scalar, degree, radian, NumPy-free)."),
    "C03": (_T, _MC, _REF + "Full products and all argument tuples with at most 2 (thorough 3) deviations from a base tuple."),
    "C04": (_T, _MC, _REF + "Full product of latitudes, longitudes and vector octants; orthonormality, determinant and transpose checked in every state."),
    "C05": (_T, _MC, _REF + "All directions x ranges x observers of the lattice and deviation-bounded tuples."),
    "C06": (_T, _MC, _REF + "All attitudes of the lattice incl. gimbal lock x frames, and deviation-bounded tuples of the observer variants."),
    "C07": (_T, _MC, _REF + "Full products and deviation-bounded tuples."),
    "C08": ("exhaustive differential enumeration of argument tuples in degree and radian mode of the real code", _MC,
            "Every function with a deg flag x options x ellipsoids x argument tuples with bounded deviations; compares the two modes of the same code."),
    "C09": ("exhaustive enumeration of array layouts, sizes, broadcast patterns and special-element positions, differential against element-wise calls", _MC,
            "Every array-capable function; compares the array call with one scalar call per element of the same code."),
    "C02": ("exhaustive depth-bounded exploration of the graph of frame conversions (walks) on the real code with a reference-model invariant", _MC,
            "All conversion sequences up to the depth bound from every frame; the invariant is the physical position per the reference model. Points, observers and bodies are fixed lattices."),
    "C16": (_TG, _MC, _GEO + "Tolerance follows Vincenty's series; nearly antipodal pairs only judged for termination and plausibility."),
    "C17": (_TG, _MC, _GEO + "Includes the vdist/vreckon round trip over all non-antipodal pairs."),
    "C18": (_TG, _MC, _GEO + "Nearly antipodal pairs, coincident, polar, equatorial and meridional pairs enumerated in all combinations; answers also judged by following them."),
    "C19": (_TG, _MC, _GEO + "Splitting, reversal and full turns over the whole product."),
    "C24": (_T, _MC, _REF + "Dense latitude lattice to the poles x ladder of flattenings; oddness, monotonicity and inverse over the whole lattice."),
    "C25": (_T, _MC, _REF + "Dense latitude lattice x all ellipsoids x call modes."),
    "C26": (_T, _MC, _REF + "Ladder of flattenings x methods x point pairs."),
    "C27": (_T, _MC, _REF + "Dense positions from deep inside to beyond geostationary x all ellipsoids."),
    "C20": (_TG, _MC, _GEO + "Points on the sampled line judged for position, spacing and end points."),
    "C21": (_TG, _MC, _GEO + "Polygons enumerated by vertex tuples over a lattice, plus pole-enclosing and seam-crossing families; the area is also judged by additivity and relabelling."),
    "C22": (_T, _MC, _REF + "Rhumb problems over the full product of points; the reference is the closed isometric-latitude formulation in extended precision."),
    "C23": (_T, _MC, _REF + "Meridian, parallel and great-circle problems over dense latitude lattices x ellipsoids."),
    "C28": (_T, _MC, _REF + "Observers x directions x ellipsoids incl. grazing and missing rays."),
    "C29": (_T, _MC, _REF + "Nose-down, overflight and polar geometries enumerated in all combinations."),
    "C30": (_T, _MC, _REF + "Instants every few days over 1972-2050 x positions x Earth orientation arguments; the reference is an independent IAU 1976/1980 chain (ERFA routines and own series)."),
    "C31": (_T, _MC, _REF + "Velocities judged against symmetric differences of the position transform in every state of the lattice; leap-second boundaries excluded for the Astropy path."),
    "C32": ("exhaustive enumeration of option combinations and argument tuples, differential against the composition of the elementary conversions", _MC,
            "All combinations of options x tuples, in installations with and without Astropy; compares composed calls of the same code and the reference model."),
    "C33": ("exhaustive enumeration of calendar days, instants, time zones and input types on the real code against the proleptic Gregorian calendar", _MC,
            "Every day of years 1-9999, every leap second boundary, every UTC offset of the lattice."),
    "C34": (_T, _MC, _REF + "Instants over 1972-2050 x longitudes x UT1 offsets, with and without Astropy."),
    "C35": (_T, _MC, _REF + "Directions x observers x instants x UT1 offsets incl. poles and zenith, with and without Astropy."),
    "C36": (_T, _MC, _REF + "All pairs of directions over dense and near-coincident/antipodal ladders."),
    "C37": (_T, _MC, _REF + "Observers x azimuths x tilts x altitudes x ellipsoids incl. grazing, missing and upward rays."),
    "C41": (_T, _MC, _REF + "All small multisets of lattice points, all permutations, shapes, shifts and reflections."),
    "C42": (_T, _MC, _REF + "All octants x magnitude ladder x call modes."),
    "C13": ("exhaustive differential enumeration of argument tuples in NumPy and NumPy-free interpreters of the real code", _MC,
            "Every function that works without NumPy x options x ellipsoids x argument tuples with bounded deviations, run in three installations; also the names importable in each."),
    "C14": ("exhaustive differential enumeration of argument tuples x ellipsoids on the real code", _MC,
            "Every function with an ellipsoid argument: scaled bodies, default versus WGS84, equal values under different names, dependence on the given body."),
    "C15": ("exhaustive enumeration of all catalogued bodies and of ladders of custom axes on the real code", _MC,
            "Every catalogue entry judged by defining formulas and published axes; custom and invalid axes enumerated."),
    "C38": ("exhaustive enumeration of commands, option combinations and input sources of the real command line program", _MC,
            "Every subcommand x options x input source x output format, compared with the library call made directly."),
    "C39": ("exhaustive enumeration of invalid argument tuples on the real code", _MC,
            "Every function x every argument out of range, alone and within arrays, as scalars, arrays, degrees and radians."),
    "C40": ("exhaustive enumeration of argument tuples containing non-finite values on the real code", _MC,
            "Every array-capable function x NaN/inf positions and neighbours; scalars and arrays."),
    "C10": ("exhaustive enumeration of argument layouts and tuples on the real code with a monitor of arguments and process state", _MC,
            "Every function x options x units x layouts; arguments, Ellipsoids and process-wide state compared around every call, and process state at every executed line of the base calls."),
    "C11": ("exhaustive exploration of call histories of the real code, each result compared bitwise with its fresh-process reference", _MC,
            "All ordered pairs within and across functions, all sequences to the depth bound around the caches; alphabets of calls are fixed, longer histories occur only as concatenations."),
    "C12": ("stateless model checking of the real code: all schedules of two threads up to a preemption bound under a controlled scheduler", _MC,
            "Preemption bound 1 for every function at line or bytecode steps, 2 around the caches; NumPy calls are atomic steps (they hold the interpreter lock between steps); more than two threads are not explored."),
}
