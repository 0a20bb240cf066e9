import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["src/pymap3d/"+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
I=["inputs"];IC=["inputs","configurations"]
p("C01","Geodetic to ECEF is the exact ellipsoid-normal construction",
 "For every geodetic latitude, longitude, altitude and ellipsoid, geodetic2ecef returns, to floating-point rounding, the point reached by going the altitude along the outward ellipsoid normal from the surface point having that geodetic latitude and longitude. This includes both poles, the equator, longitudes outside +-180, negative and very large altitudes, spheres and strongly flattened bodies, in degrees and in radians.",
 IC,"all latitudes in [-90,90], longitudes, altitudes from deep negative to far outside, every built-in and any oblate custom ellipsoid, deg True/False, scalars and arrays",
 "Tests compare about ten fixed points on two ellipsoids; the formula must hold over a continuous 3-D domain for every ellipsoid.",
 ["ecef.py","ellipsoid.py"],[("prime-vertical radius formula","ecef.geodetic2ecef")],["pymap3d.geodetic2ecef"])
p("C02","ECEF to geodetic inverts geodetic to ECEF everywhere",
 "For every ECEF point outside a neighbourhood of the ellipsoid's centre (the squared centre distance is at least 1.5 times the difference of the squared semi-axes), ecef2geodetic returns latitude in [-90,90], longitude in [-180,180] and altitude such that geodetic2ecef maps them back to the same point to sub-millimetre accuracy (relative to Earth size), from below the surface through orbital to lunar distances. The altitude is negative exactly for points inside the ellipsoid, and poles, axis and equator give exact-limit answers.",
 IC,"points at altitudes from -0.5 a to +60 a, all directions including the polar axis and the equatorial plane, every ellipsoid, deg True/False, scalar and array code paths, with and without numpy",
 "Tests check a handful of near-surface points with loose tolerances; accuracy loss away from the surface or in one code path is invisible to them.",
 ["ecef.py"],[("You (2000) closed form, scalar and array variants","ecef.ecef2geodetic")],["pymap3d.ecef2geodetic"])
p("C03","ENU transforms are the rigid local tangent frame at the observer",
 "For every observer and target, geodetic2enu, ecef2enu, enu2ecef, enu2geodetic and the vector-only forms (ecef2enuv, uvw2enu, enu2uvw, enu2ecefv) express exactly the same rotation into the orthonormal frame whose axes at the observer point east, north and along the outward ellipsoid normal. Lengths are preserved, the observer itself maps to zero, forward and reverse forms are mutual inverses, and geodetic and ECEF entry points agree.",
 IC,"all observers incl. poles and antimeridian, targets from millimetres to planetary distances, every ellipsoid, deg True/False",
 "Tests use one observer/target pair; frame errors can be confined to a hemisphere, to poles, to one entry point or to one ellipsoid.",
 ["enu.py","ecef.py"],[("uvw2enu/enu2uvw rotations","ecef.py"),("geodetic2enu differencing","enu.py")],["pymap3d.geodetic2enu","pymap3d.enu2geodetic","pymap3d.ecef2enu","pymap3d.enu2ecef"])
p("C04","NED, NWU and SEZ are pure axis relabelings of ENU",
 "For every input, each NED, NWU and SEZ function (to/from geodetic, ECEF, AER, and vector forms) gives exactly what the corresponding ENU function gives after the fixed signed permutation of axes: NED=(N,E,-U), NWU=(N,-E,U), SEZ=(-N,E,U).",
 IC,"every function of ned, nwu, sez in both directions over all inputs, ellipsoids and deg settings",
 "Tests check one point per function and several functions not at all; ellipsoid/deg forwarding and sign errors need general inputs.",
 ["ned.py","nwu.py","sez.py"],[("delegation to enu with permuted axes","ned.py, nwu.py, sez.py")])
p("C05","AER is the polar form of ENU, in every entry point, and round-trips",
 "For every target, azimuth is measured clockwise from north in [0,360) (a rounding-level negative angle may round to 360), elevation from the horizontal in [-90,90] and slant range is the Euclidean distance, and all AER functions (enu, ned, nwu, sez, ECEF, geodetic) agree with that definition applied to the ENU displacement. Going to AER and back (or from AER and back) restores the input up to rounding and the documented sub-millimetre zero trim.",
 IC,"all displacements from sub-millimetre to planetary, all octants, zenith/nadir, all observers, ellipsoids, deg True/False",
 "Tests check a few angles at one observer; quadrant, zenith, wrap and radians behaviour are unconstrained.",
 ["aer.py","enu.py","ned.py","nwu.py","sez.py"],[("atan2/hypot conversion with zero trim","enu.enu2aer"),("composition","aer.py")])
p("C06","Published rotation matrices are proper rotations matching the vector API",
 "Every *_matrix function (ECEF to/from ENU, NED, NWU, SEZ, and ENU/NED/NWU/SEZ to/from body) returns a 3x3 matrix that is orthonormal with determinant +1, whose reverse-direction counterpart is its transpose, and whose product with a vector equals the corresponding vector transform.",
 IC,"all observer angles, attitudes, deg True/False, scalar and array angles",
 "Tests verify a few fixed angles; orthonormality and consistency are for-all statements.",
 ["frames.py","enu.py","ned.py","nwu.py","sez.py","body.py"],[("elementary rotations and axis permutations","frames.py")])
p("C07","Body-frame transforms follow the yaw-pitch-roll convention in all frames",
 "For every attitude, position and local frame (ned, enu, sez, nwu), the body axes are the NED axes rotated by intrinsic yaw about down, then pitch, then roll, and every body function (matrix, vector, point, geodetic; both directions) realises that same physical rotation whichever local frame is named. Forward and reverse functions are inverses, point forms preserve distance to the observer, and an unknown frame or sequence raises ValueError.",
 IC,"all yaw/pitch/roll incl. gimbal lock and multiples of 90, four frames, all observers, ellipsoids, deg True/False",
 "Tests cover a few attitudes mostly in NED; frame-by-frame consistency is not sampled.",
 ["body.py","frames.py"],[("ned2body = (Rz Ry Rx)^T and permutations","frames.py")])
p("C08","Downrange/crossrange/above transforms rotate the horizon by heading",
 "For every heading and displacement, DCA downrange is the ENU displacement component along the heading (clockwise from north), crossrange the component 90 degrees counter-clockwise (left) of it as in enu2dca, and above is up; all DCA functions (enu, ned, aer, ecef, geodetic) agree with it and their reverse functions invert them exactly.",
 IC,"all headings incl. beyond 360 and negative, all displacements/observers/ellipsoids, deg True/False",
 "Tests use a couple of fixed headings.",
 ["dca.py"],[("2-D rotation by heading","dca.enu2dca / dca2enu")])
p("C09","Line of sight returns the first ellipsoid intersection along the ray",
 "For every observer at non-negative height, azimuth, tilt and ellipsoid, lookAtSpheroid returns the nearest forward intersection of the ray with that ellipsoid: the point lies on the ellipsoid at the returned slant range from the observer along the requested direction, and nothing nearer on the ray intersects. NaN is returned exactly when the forward ray misses the ellipsoid, and a negative height raises ValueError.",
 IC,"all observers (0 to far above), az, tilt including grazing and upward looks, every ellipsoid, scalar and arrays mixing hits and misses, deg True/False",
 "Tests check a few WGS84 nadir/edge examples.",
 ["los.py"],[("quadratic ray/ellipsoid intersection","los.lookAtSpheroid")],["pymap3d.los.lookAtSpheroid"])
p("C10","Geocentric spherical coordinates are exact and invertible",
 "geodetic2spherical returns the geocentric latitude, unchanged longitude and centre distance of the very point that geodetic2ecef gives, for every latitude, altitude and ellipsoid, and spherical2geodetic inverts it (away from the ellipsoid's centre). Spheres, poles and equator included.",
 IC,"all latitudes, longitudes, altitudes -0.5a to 60a, all ellipsoids, deg True/False",
 "Tests sample three points on WGS84.",
 ["spherical.py"],[("closed form and Vermeille-style inverse","spherical.py")])
p("C11","Auxiliary latitudes match their mathematical definitions",
 "For every geodetic latitude and ellipsoid, the parametric, geocentric (surface), conformal, isometric, rectifying and authalic latitudes equal their defining closed forms or integrals (exactly for closed forms; to the truncation order of the documented series in eccentricity for rectifying and authalic). All are odd functions, fix the equator and poles (isometric diverging at the poles), and are strictly increasing.",
 IC,"all latitudes in [-90,90], all ellipsoids, deg True/False, scalars and arrays",
 "Tests sample 0/45/90-like values on WGS84.",
 ["latitude.py"],[("closed forms and truncated series","latitude.py")])
p("C12","Auxiliary-latitude inverses undo their forward conversions",
 "For every ellipsoid and latitude, parametric2geodetic, geocentric2geodetic (surface), conformal2geodetic, isometric2geodetic, rectifying2geodetic and authalic2geodetic restore the geodetic latitude given the forward result, to rounding or to the series truncation order.",
 IC,"all latitudes, all ellipsoids, deg True/False, scalars and arrays",
 "Tests sample a few WGS84 latitudes.",
 ["latitude.py"],[("inverse series","latitude.py")])
p("C13","Geodetic/geocentric latitude with altitude describes one physical point",
 "For every latitude, altitude and ellipsoid, geodetic2geocentric(lat, alt) is the geocentric latitude of the point at that geodetic latitude and altitude, and geocentric2geodetic (given altitude) and geoc2geod (given centre distance) recover the geodetic latitude of that point: geocentric2geodetic to rounding, geoc2geod up to the third order in flattening its published series (Long 1975) neglects.",
 IC,"all latitudes, altitudes -0.1a to 60a, all ellipsoids, deg True/False",
 "Tests use three latitudes at zero altitude.",
 ["latitude.py"],[("geocentric conversion with transverse radius","latitude.py")])
p("C14","Radii of curvature match the meridian-ellipse geometry",
 "For every latitude and ellipsoid, rcurve.parallel is the distance of the surface point to the axis, rcurve.transverse the normal's length to the axis and rcurve.meridian the curvature radius of the meridian ellipse (derivative of arc length by latitude); geocentric_radius is the centre distance of the surface point.",
 IC,"all latitudes incl. poles, all ellipsoids, deg True/False, scalars and arrays",
 "Tests sample 0/45/90 on WGS84.",
 ["rcurve.py"],[("closed forms","rcurve.py")])
p("C15","Auxiliary-sphere radii match their defining averages",
 "For every ellipsoid, rsphere.eqavol, authalic, rectifying, triaxial, biaxial, curve and euler return the radius of the sphere of equal volume, equal surface area, equal meridian length (to its series order), the stated axis means, and the stated curvature averages at the requested latitudes and azimuth. All lie between the extreme radii of the body and reduce to the radius for a sphere.",
 IC,"all ellipsoids, latitudes, methods, deg True/False",
 "Tests check WGS84 constants only.",
 ["rsphere.py"],[("closed forms","rsphere.py")])
p("C16","Vincenty inverse gives the geodesic distance and initial azimuth",
 "For every pair of points that are not nearly antipodal, vdist returns the length and initial azimuth in [0,360) (360 only as the rounding of a tiny negative angle) of the shortest geodesic on the given ellipsoid, matching an independent high-precision geodesic solution to millimetres on Earth-like ellipsoids. Distance is symmetric, zero for coincident points, unaffected by adding full turns to longitudes, and each array element's result is the same as when computed alone.",
 IC,"all non-near-antipodal pairs incl. poles, equator, meridians, short lines, antimeridian crossings, coincident points; all mildly flattened ellipsoids; scalars and arrays; deg True/False",
 "Tests check about ten pairs on WGS84.",
 ["vincenty.py"],[("Vincenty iteration","vincenty.vdist")],["pymap3d.vincenty.vdist"])
p("C17","Vincenty direct and tracks land on the geodesic",
 "For every start, azimuth, non-negative distance and ellipsoid, vreckon returns the endpoint of that geodesic (latitude in [-90,90], longitude in [0,360)), matching an independent solution to millimetres on Earth-like ellipsoids and inverting vdist, and always returns (lines of many turns, very flat bodies); track2 returns npts points equally spaced in distance along the shortest geodesic from the first to the second endpoint inclusive. Distances below zero, latitudes beyond the poles, npts below 2 and antipodal tracks (of more than two points) raise ValueError.",
 IC,"all starts incl. poles, azimuths, distances up to half the circumference and beyond, all mildly flattened ellipsoids, npts, scalars and arrays, deg True/False",
 "Tests check a few lines on WGS84.",
 ["vincenty.py"],[("Vincenty direct iteration","vincenty.vreckon"),("track2","vincenty.py")])
p("C18","Karney inverse solves every geodesic, including antipodal, to nanometres",
 "For every pair of points on every ellipsoid of small flattening, geodesic_inverse returns the length of the shortest geodesic and its forward azimuths at both ends, converging for nearly antipodal, polar, equatorial, meridional and coincident pairs, with length within 50 nm-scale accuracy of an independent geodesic solver on Earth. The length is symmetric, never exceeds any other path, and is unaffected by full longitude turns.",
 IC,"all pairs incl. near-antipodal, all ellipsoids with |f|<=~1/50, deg True/False",
 "Tests check a dozen pairs on WGS84.",
 ["karney.py"],[("Karney (2013) inverse","karney._Geodesic._Inverse")],["pymap3d.karney.geodesic_inverse"])
p("C19","Karney direct lands exactly and is consistent with the inverse",
 "For every start, azimuth, signed distance and ellipsoid of small flattening, geodesic_direct returns the endpoint (longitude and azimuth within half a turn of zero) and the geodesic's azimuth there to nanometre-scale accuracy on Earth; running backwards from the endpoint returns to the start, splitting a line at any intermediate distance gives the same end, and geodesic_inverse recovers distance and azimuth for shortest lines.",
 IC,"all starts, azimuths, distances from -2 to 2 circumferences, ellipsoids, deg True/False",
 "Tests check a few lines on WGS84.",
 ["karney.py"],[("Karney (2013) direct","karney._Geodesic._Direct")])
p("C20","Geodesic line points are ordered and equally spaced on the geodesic",
 "geodesic_line returns npts points (for any npts) that start at the first point, end at the second, lie on the shortest geodesic between them and are equally spaced in distance, for every pair, ellipsoid and unit setting.",
 IC,"all pairs, npts>=1, ellipsoids, deg True/False",
 "Tests check endpoints for one line.",
 ["karney.py"],[("direct steps along inverse solution","karney.geodesic_line")])
p("C21","Geodesic polygon perimeter and area are the ellipsoidal ones",
 "geodesic_area returns the sum of the geodesic edge lengths as the perimeter and the signed area enclosed on the ellipsoid by the geodesic edges: its magnitude matches an independent solution, does not depend on the starting vertex or on longitude shifts, is positive for clockwise vertex order and changes sign when the order is reversed, and adds up when a polygon is cut along a diagonal. Fewer than three vertices raise ValueError.",
 IC,"simple polygons of any size, latitude and orientation (not enclosing more than half of the ellipsoid), ellipsoids, deg True/False",
 "Tests assert only that area is positive for one triangle and a loose pole-quadrant bound.",
 ["karney.py"],[("area by azimuth excess and series","karney.geodesic_area")])
p("C22","Rhumb lines have constant bearing and the loxodrome length",
 "For every pair of points not at a pole, loxodrome_inverse returns the length and bearing in [0,360) of the shorter rhumb line (that crossing less than 180 degrees of longitude) and loxodrome_direct travels along it: direct inverts inverse, both agree with an independent high-precision rhumb computation to the documented series accuracy, (amplified by rounding only where the bearing is nearly east-west), and east-west lines reduce to the departure along the parallel. loxodrome_direct rejects latitudes beyond the poles and negative ranges with ValueError.",
 IC,"all non-polar pairs incl. antimeridian crossings, meridional and east-west and nearly east-west lines, all ellipsoids, scalars and arrays, deg True/False",
 "Tests check a dozen WGS84 pairs none of which crosses the antimeridian diagonally.",
 ["lox.py"],[("isometric/rectifying latitude differences","lox.py")])
p("C23","Meridian arc and departure are true ellipsoidal distances",
 "For every latitude pair and ellipsoid, meridian_arc equals the elliptic-integral arc length of the meridian between them (to series order), is symmetric, additive and zero for equal latitudes, and meridian_dist is the arc from the equator; departure is the parallel's radius times the smallest longitude separation (at most pi).",
 IC,"all latitudes, longitudes incl. beyond one turn, ellipsoids, deg True/False, scalars and arrays",
 "Tests check a few WGS84 values.",
 ["lox.py","rsphere.py","latitude.py"],[("rectifying latitude series","lox.meridian_arc"),("modular longitude difference","lox.departure")])
p("C24","Mean position is the rotation-consistent spherical mean",
 "meanm returns the direction of the vector mean of the points mapped to the authalic sphere: it does not depend on point order or repetition of the whole set, shifts with a common longitude shift, mirrors with latitude sign, and returns the point itself for coincident points, for every ellipsoid and unit setting.",
 IC,"arrays of 1..n points anywhere incl. across the antimeridian and around poles, ellipsoids, deg True/False",
 "Tests check three points.",
 ["lox.py"],[("authalic mapping and Cartesian sum","lox.meanm")])
p("C25","n-vector conversions are unit normals and lossless",
 "For every latitude and longitude geodetic2nvector returns the unit outward ellipsoid normal and nvector2geodetic recovers latitude and longitude to rounding (including at and near the poles and for vectors with rounding-level norm error); ecef2nvector and nvector2ecef agree with ecef2geodetic and geodetic2ecef for every altitude and ellipsoid.",
 IC,"all latitudes incl. 1e-12 deg from the poles, longitudes, altitudes, ellipsoids, deg True/False",
 "Tests check a few mid-latitude points.",
 ["nvector.py"],[("trigonometric conversion","nvector.py")])
p("C26","n-vector great-circle operations are exact spherical geometry",
 "For every set of n-vectors: distance is radius times the great-circle angle; interpolation stays on the great-circle arc, at the requested fraction of the angle, hitting both ends; the mean is the normalised vector sum and independent of order; cross-track distance is the signed distance to the great circle (positive left of the path direction), at most a quarter circumference; intersection lies on both great circles, on the side nearest to the four points. Results are rotation invariant and finite for nearly coincident and nearly antipodal (not exactly antipodal) vectors.",
 IC,"all unit vectors incl. nearly coincident/antipodal/orthogonal, fractions in [0,1], radii, list of vectors",
 "Tests check a few simple configurations.",
 ["nvector.py"],[("cross/dot products","nvector.py")])
p("C27","Angular separation is the great-circle angle for all pairs",
 "For every pair of directions, anglesep and anglesep_meeus return the angle between them in [0,180] degrees, agreeing with each other and with the vector angle (to rounding where the formula is well conditioned, and always finite), symmetric, zero for identical points and insensitive to full turns; haversine(theta) equals sin^2(theta/2).",
 IC,"all pairs incl. tiny separations and near-antipodal, deg True/False, with and without astropy, scalars and arrays",
 "Tests check two pairs.",
 ["haversine.py"],[("haversine formula","haversine.anglesep_meeus")])
p("C28","Cartesian, polar and spherical utility conversions are inverse pairs",
 "For every vector, cart2pol/pol2cart and cart2sph/sph2cart are exact inverses with angles in radians, azimuth from atan2(y,x), elevation in [-pi/2,pi/2] and non-negative radius, and agree with the Cartesian definitions in every quadrant and on the axes.",
 IC,"all finite vectors incl. axes, zero, huge/tiny magnitudes; scalars and arrays; with and without numpy",
 "Tests check one or two vectors.",
 ["utils.py","mathfun.py"],[("atan2/hypot","utils.py")])
p("C29","Julian dates and leap seconds are correct for every UTC instant",
 "For every Gregorian datetime, juliandate equals the continuous day count (JD 2451545.0 at 2000-01-01 12:00) to double resolution, aware datetimes are interpreted by their UTC instant and naive ones as UTC, lists map elementwise, and the leap-second count and terrestrial-time offset used for orientation match the official UTC table since 1972.",
 I,"all datetimes (years 1600-2999, every month end, leap day, microseconds, time zones), both sides of every leap-second boundary",
 "Tests check one date.",
 ["sidereal.py","earth_orientation.py"],[("calendar formula","earth_orientation.juliandate"),("leap-second table","earth_orientation.leap_seconds")])
p("C30","Sidereal time matches the standard model and advances with longitude",
 "For every time and longitude, datetime2sidereal lies in [0, 2 pi] (2 pi only by rounding), equals Greenwich sidereal time plus longitude modulo a turn, matches an independent apparent-sidereal-time model to better than a few arcseconds in the modern era, and shifts by delta_ut1 times Earth's rotation rate on the non-astropy path; greenwichsrt matches the IAU mean sidereal time polynomial. Lists of times map elementwise.",
 IC,"times 1972-2050, all longitudes, delta_ut1 in +-0.9 s, with and without astropy, datetimes with zones",
 "Tests check one or two instants.",
 ["sidereal.py","earth_orientation.py"],[("GMST polynomial + equation of equinoxes","earth_orientation.py")])
p("C31","str2dt yields the datetime denoted by every documented input form",
 "For every instant, str2dt returns the datetime denoted by a datetime (unchanged), an ISO-8601 string, a list of strings or datetimes, and a numpy datetime64 of any unit or array of them, preserving it to microseconds.",
 IC,"all instants (microsecond resolution), all input forms and datetime64 units",
 "Tests check one or two literals.",
 ["timeconv.py"],[("type dispatch","timeconv.str2dt")])
p("C32","ECI-ECEF conversion is a rigid rotation with exact inverse",
 "For every time and position, eci2ecef and ecef2eci are mutual inverses, preserve vector length and angles, apply one rotation to all points of any array shape, and each time's rotation is a proper rotation, on both the astropy and the non-astropy path.",
 IC,"times 1972-2050, positions of any magnitude, scalars/arrays, delta_ut1, xp, yp settings, with and without astropy/numpy",
 "Tests check one instant and point.",
 ["eci.py","earth_orientation.py"],[("precession-nutation-sidereal-polar rotation product","earth_orientation.eci_to_ecef_matrix")])
p("C33","ECI-ECEF orientation agrees with the reference Earth model",
 "For every modern-era time, the non-astropy ECI-ECEF rotation agrees with an independent IAU precession-nutation-sidereal-time model to better than an arcsecond, delta_ut1 rotates it about the pole by exactly Earth's rotation angle for that time, and xp, yp tilt it by the given polar motion with the sign convention of the IERS (pole displaced by xp towards Greenwich and by yp towards 90 degrees west); the astropy path agrees with astropy's GCRS-ITRS transform.",
 IC,"times 1972-2050, delta_ut1 in +-0.9 s, xp, yp in +-1 arcsec",
 "Tests compare one instant with tolerances of kilometres.",
 ["eci.py","earth_orientation.py"],[("precession, nutation, GAST, polar motion","earth_orientation.py")])
p("C34","Geodetic and AER entry points of ECI honour time, frame and ellipsoid",
 "For every input, eci2geodetic, geodetic2eci, eci2aer and aer2eci equal the composition of the ECI-ECEF conversion at that time, with the same delta_ut1, xp and yp, and the corresponding geodetic or AER conversion on the same ellipsoid and units; each pair with equal arguments is mutually inverse.",
 IC,"times, positions, observers, delta_ut1/xp/yp, ellipsoids, deg True/False, with and without astropy",
 "Tests use the default orientation arguments only.",
 ["ecef.py","aer.py","eci.py"],[("composition and argument forwarding","ecef.eci2geodetic, ecef.geodetic2eci, aer.eci2aer, aer.aer2eci")])
p("C35","ECI-ECEF state velocities are the time derivative of position",
 "For every time and state, eci2ecef_state and ecef2eci_state transform positions exactly as the position functions do, transform velocities as the time derivative of the position transform along the trajectory (to 1e-4 of the frame's rotational speed), are mutually inverse, and treat every element of an array input as the scalar case.",
 IC,"times 1972-2050, states, array shapes, delta_ut1/xp/yp, with and without astropy",
 "Tests check one state, scalars only.",
 ["eci.py","earth_orientation.py"],[("finite-difference rotation rate","earth_orientation.eci_to_ecef_matrix_rate"),("transport term","eci._apply_state_rotation_scalar")])
p("C36","Azimuth/elevation and right ascension/declination are inverse views",
 "For every direction, observer and time, the non-astropy azel2radec and radec2azel are inverses of one another, satisfy the spherical-astronomy relations for the local apparent sidereal time at that instant (including delta_ut1), give right ascension and azimuth in [0,360] and finite elevation/declination in [-90,90], and observer latitudes beyond 90 raise ValueError; the astropy path agrees with astropy's own transform.",
 IC,"all directions incl. near zenith and celestial poles, observers, times, delta_ut1, with and without astropy",
 "Tests check one direction.",
 ["vallado.py","azelradec.py"],[("Vallado algorithm 27/28","vallado.py")])
p("C37","Array calls equal element-by-element scalar calls, any shape",
 "For every function accepting arrays and any mix of array shapes (0-d, 1-d, n-d, size 1, scalar mixed with array where broadcasting is meaningful), each output has the broadcast shape of the inputs it depends on and element i equals the result of the scalar call on element i; no element is affected by its neighbours. Whole numbers given as int or as 32/64-bit integer arrays are the same arguments as given as float. (ECI and rhumb functions document squeezing of unit dimensions.)",
 IC,"all vectorised public functions, all shapes incl. empty, mixed scalar/array and outer broadcasting, strided views, integer types, special values (poles, coincident points, interior points, misses) mixed with ordinary ones",
 "Tests call most functions with scalars or 1-element arrays.",
 ["ecef.py","enu.py","latitude.py","vincenty.py","los.py","lox.py","eci.py"],[("numpy/scalar dual code paths","throughout")])
p("C38","Inputs are never modified and results depend only on arguments",
 "No public function modifies any array, list, datetime or ellipsoid passed to it, and repeating a call with equal arguments, in any order and interleaving with other calls (including clearing caches), or while other threads are calling, returns identical results. Calls leave the settings of the process (warning filters, floating-point error handling, random state, working directory, locale) as they were.",
 ["inputs","histories"],"all public functions over random call sequences with shared argument objects",
 "Tests call each function once with fresh literals.",
 ["enu.py","vincenty.py","ellipsoid.py","karney.py"],[("in-place masks","enu.enu2aer, vincenty.vdist"),("ellipsoid/geodesic caches","ellipsoid.py")])
p("C39","Degree and radian modes are the same computation in other units",
 "For every function with a deg switch, calling with deg=False on the radian values gives exactly the deg=True results with every angular input and output converted and every non-angular one unchanged, over the same output ranges.",
 IC,"all functions with deg, all inputs",
 "Tests exercise deg=False on a handful of functions.",
 ["ecef.py","enu.py","aer.py","lox.py","latitude.py","karney.py","vincenty.py"],[("degrees/radians conversion and forwarding of deg","throughout")])
p("C40","The ellipsoid argument is honoured and results scale with its size",
 "For every function with an ellipsoid argument, omitting it equals passing WGS84, and multiplying both ellipsoid axes and every length input by the same factor multiplies every length output by that factor (areas by its square) and leaves angles unchanged (up to the documented 1 mm trim and the 10 nm pole threshold); changing the flattening changes flattening-dependent results.",
 IC,"all functions with ell, all inputs, scale factors 1e-3..1e3, all ellipsoids",
 "Tests use the default ellipsoid almost everywhere.",
 ["ecef.py","enu.py","aer.py","los.py","lox.py","vincenty.py","karney.py","latitude.py","rcurve.py","rsphere.py"],[("resolve_ellipsoid and forwarding of ell","throughout")])
p("C41","Results do not depend on which optional packages are installed",
 "For every non-astropy function and scalar input with a mathematically defined result, the package gives the same values (to rounding), or raises the same kind of error, with only the standard library, with numpy, and with numpy and astropy installed; force_non_astropy makes the astropy-capable functions do so too.",
 IC,"all public scalar functions and inputs across three installations",
 "Tests run mostly in a single environment and never compare environments.",
 ["mathfun.py","ecef.py","__init__.py","azelradec.py","eci.py","sidereal.py","haversine.py"],[("import fallbacks","mathfun.py"),("astropy dispatch","eci.py, sidereal.py, azelradec.py, haversine.py")])
p("C42","The command line prints exactly what the library call returns",
 "For every registered command and argument values, running python -m pymap3d with any ellipsoid, output format, precision and option flags prints the values that calling the same library function with the same arguments returns: full precision text by default, the requested decimals with --precision, valid JSON with --output json; omitted options take the library's defaults.",
 IC,"all commands and options, scalar and comma-list arguments, ellipsoid names, output modes",
 "Tests run a few commands with default options.",
 ["__main__.py"],[("argparse registration from signatures","__main__.py"),("value coercion and output","__main__.py")])
p("C43","Out-of-domain inputs are rejected; NaN never becomes a number",
 "Functions documented to reject latitudes beyond the poles, negative ranges or heights, short polygons, bad methods, frames or sequences raise ValueError for every such input (anywhere in an array), accept the closed boundary values, and a NaN coordinate yields NaN in the outputs that depend on it rather than a plausible number or another element's result.",
 IC,"all validated functions and boundary values, scalars and arrays with one bad element",
 "Tests check one bad value for a few functions.",
 ["vincenty.py","lox.py","los.py","karney.py","vallado.py","body.py","rsphere.py"],[("guards","throughout")])
p("C44","Ellipsoid objects are self-consistent and caches are transparent",
 "Every built-in model has its published axes in metres, and every model and custom ellipsoid satisfies f=(a-b)/a, n=(a-b)/(a+b), e^2=2f-f^2, with a>=b>0, prolate axes rejected and unknown names raising KeyError; and any interleaving of from_name, construction, cache clearing and geodesic calls on different ellipsoids gives the same results as fresh objects.",
 ["inputs","histories"],"all model names, all axis pairs, random histories of constructions, lookups, cache clears and geodesic calls on interleaved ellipsoids",
 "Tests check a few models and one cache hit.",
 ["ellipsoid.py","karney.py"],[("derived parameters","ellipsoid.Ellipsoid"),("lru_cache and geodesic cache keyed by value","ellipsoid.py")])
p("C45","Results rotate with longitude and mirror with latitude",
 "For every geometric function on an ellipsoid of revolution, adding a constant (or a full turn) to all longitudes shifts output longitudes by it and rotates ECEF outputs about the axis, changing nothing else; reflecting latitudes or longitudes reflects the outputs accordingly, including across the antimeridian and at +-180 (pairs of nearly opposite points, whose shortest line is not unique, excepted).",
 IC,"all position functions, all longitude shifts incl. +-360 multiples, all reflections",
 "Tests sample isolated points, never related pairs.",
 ["ecef.py","enu.py","aer.py","lox.py","vincenty.py","karney.py","los.py","spherical.py"],[("use of only longitude differences","throughout")])
with open("/verif/properties.jsonl","w") as f:
    for r in P: f.write(json.dumps(r,ensure_ascii=False)+"\n")
print(len(P))
