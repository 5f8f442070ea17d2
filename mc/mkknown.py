"""Writes known_findings.txt (run by hand when a finding or a repair is added; no check writes it)."""
import os
KF1 = ("ecef2geodetic far from the surface: the closed form of You (2000) makes a single correction, so its result is off by more than rounding "
       "(WGS84: 3e-4 m at 400 km, 9 mm at 1000 km, 32 m at GPS and 81 m at geostationary height, 24 mm at 1000 km depth; kilometres on Jupiter). "
       "Not repaired: further Newton steps cure it, but test_ellipsoid pins the wrong values for jupiter and io. Accepted only where the result equals "
       "the single-correction closed form to rounding; reached through {}")
KF1_IN = {"C32": "eci2geodetic", "C01": "ecef2geodetic itself", "C03": "enu2geodetic, ned2geodetic, nwu2geodetic, sez2geodetic",
          "C05": "aer2geodetic", "C06": "body2geodetic", "C07": "dca2geodetic", "C28": "ecef2nvector"}
KF3 = ("Ellipsoid model 'io': axes are catalogued in kilometres (a=1829.7, b=1815.8 as pinned by the test suite) where all other models are in metres; "
       "accepted only for exactly these values")
FIND = {("C15", "KF3"): KF3}
for k, v in KF1_IN.items():
    FIND[(k, "KF1")] = KF1.format(v)
FIXED = [
    ("C35", "b632975", "azel2radec/radec2azel wrong at the observer's poles (0/0) and with Astropy's sidereal time mixed into the pure-Python path"),
    ("C33", "7fce40d", "str2dt of a list of strings returned the strings unparsed"),
    ("C38", "3a9387f", "CLI --json failed on NumPy results"),
    ("C38", "673ff05", "CLI nvector_distance/nvector_cross_track_distance without a radius failed"),
    ("C22", "f2783c2", "loxodrome_inverse went the long way across the antimeridian"),
    ("C09", "0b9f799", "vdist of arrays: elements depended on their neighbours' iteration; also changed warning filters (C10)"),
    ("C10", "1bdd603", "vdist and vreckon overwrote polar latitudes in the caller's arrays"),
    ("C09", "608ce35", "geodetic2conformal of arrays with a pole replaced its neighbours; also changed warning filters (C10)"),
    ("C10", "5f17e47", "ecef2geodetic changed the process-wide warning filters"),
    ("C18", "82006c3", "geodesic_inverse lost accuracy (up to 1e-4 m) near the equator"),
    ("C18", "2e9a7bf", "Karney geodesics at the poles used an epsilon 1e292 times too large: 1e-9-class errors"),
    ("C10", "70f9ac3", "enu2aer and dependants zeroed sub-millimetre components in the caller's arrays"),
    ("C14", "8c60b33", "lookAtSpheroid ignored the given ellipsoid for the observer and the result"),
    ("C31", "8f63ff8", "eci2ecef_state/ecef2eci_state failed on arrays of more than one state"),
    ("C32", "bf439ce", "geodetic2eci ignored delta_ut1, xp and yp"),
    ("C17", "143c52a", "vreckon returned NaN where the distance is exactly one turn of the auxiliary sphere"),
    ("C37", "b8af3b3", "lookAtSpheroid returned NaN for an observer standing on the surface"),
    ("C09", "5145fb4", "ecef2geodetic returned lat of another shape than lon and alt for arrays with singleton dimensions, and raised for arrays mixed with scalars"),
    ("C09", "8f65e7e", "ECI/ECEF results dropped singleton dimensions, so eci2aer of a column returned an N by N matrix"),
    ("C09", "0afaa7c", "loxodrome_inverse/direct dropped singleton dimensions"),
    ("C35", "72e96a3", "azel2radec/radec2azel returned NaN (or raised without NumPy) at zenith and at the celestial poles, where rounding took the arcsine argument beyond 1; 1e-6 degree errors nearby"),
    ("C28", "e07f782", "nvector2geodetic lost 8 digits near the poles (0.1 m) and returned NaN for n3 rounded beyond 1; nvector_cross_track_distance likewise (C29)"),
    ("C21", "09f5220", "geodesic_area returned the sum of the turning angles times the square of the authalic radius instead of the area"),
    ("C08", "09f5220", "geodesic_area with deg=False took the sum of radian angles as degrees"),
    ("C27", "cfd4286", "geoc2geod had the wrong sign in its second-order term, leaving an error of order f squared"),
    ("C18", "3942cb2", "geodesic_inverse stopped bisecting too early for some nearly antipodal pairs, leaving errors of metres"),
    ("C27", "887c4ed", "geodetic2spherical/spherical2geodetic were off by up to 0.1 m near the poles"),
    ("C31", "bd955a0", "state velocities were wrong by up to 3 cm/s at 1e7 m: the rotation rate differenced Julian dates of 40 us resolution over one second"),
    ("C30", "02cc367", "polar motion xp, yp applied with the wrong sign in the built-in ECI path"),
    ("C33", "45bae51", "str2dt of datetime64 in nanoseconds gave integers, in days dates"),
    ("C38", "1cda3e9", "command line text output of matrices and arrays ignored --precision and printed np.float64(...)"),
    ("C38", "53226fa", "command line rejected negative numbers with exponents (-1e3) as unknown options"),
    ("C09", "70d7da8", "vdist with deg=False raised for arrays mixed with floats"),
    ("C39", "36a6672", "track2 returned a meaningless track for a quarter of antipodal end points instead of the documented error"),
    ("C09", "9433ef9", "vallado azel2radec/radec2azel raised for arrays of observer latitudes"),
    ("C10", "bb19020", "vdist near antipodal points installed a handler on the root logger (logging.warning), so that the application's own logging.basicConfig had no effect"),
    ("C41", "3e0a1dc", "meanm of latitudes and longitudes that broadcast (a scalar latitude with an array of longitudes, a row against a column) weighted the polar component once only"),
    ("C09", "670116f", "loxodrome_inverse/loxodrome_direct of an empty array of two dimensions returned one dimension"),
    ("C09", "d107178", "angles given as arrays of 8- and 16-bit integers (or booleans) were converted to radians in half or single precision: infinite or wrong positions"),
    ("C09", "779e445", "ecef2geodetic and spherical2geodetic of 32-bit integer positions overflowed"),
    ("C09", "2a39761", "latitude conversions of the poles in single precision came out at the other pole"),
    ("C09", "24ce32b", "vdist and vreckon of single-precision arrays did not converge (vreckon never returned)"),
    ("C09", "3706b71", "loxodromes due east or west in single precision had length zero or ended kilometres off"),
    ("C09", "a4fb341", "lookAtSpheroid in single precision was metres off or missed the ellipsoid"),
    ("C09", "392f6a8", "anglesep_meeus in single precision was NaN near the poles"),
    ("C09", "c5aea0b", "NED, NWU, SEZ and DCA components given as unsigned integers wrapped around when negated"),
    ("C09", "aa3a95f", "euler of latitudes given as 8-bit integers overflowed"),
    ("C09", "66a5cf1", "geodesic functions of unsigned integer longitudes wrapped around"),
]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "known_findings.txt"), "w") as fh:
    fh.write("# genuine defects of pymap3d; recorded ones (finding:) are accepted only in exactly the described form, repaired ones (fixed:) suppress nothing\n")
    for (p, k), t in sorted(FIND.items()):
        fh.write(f"finding: property={p} id={k} {t}\n")
    for p, c, t in FIXED:
        fh.write(f"fixed: property={p} {c} {t}\n")
