"""Writes /verif/properties.jsonl (one property per line). Run: python3 tools/gen_properties.py"""
import json, os
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (pid, len(title))
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                    "observe_at": list(observe), "hook_needed": None}})


core, rot, obj, util = ("src/nvector/core.py", "src/nvector/rotation.py", "src/nvector/objects.py", "src/nvector/util.py")

prop("C01", "Latitude/longitude and n-vector determine each other at every position",
     "For every latitude and longitude (any real longitude, poles, equator and antimeridian included) and every choice of Earth-frame axes, the n-vector is the unit outward normal of that position, and converting it back gives the same latitude and the same longitude modulo a full turn, to rounding error. Recovered latitudes lie in [-90, 90] degrees and recovered longitudes in [-180, 180] degrees. Close to a pole the distance to the pole is kept to full relative accuracy.",
     ["inputs", "configurations"], "every latitude in [-90,90] deg x every real longitude x every axes choice, scalar or array",
     "Tests convert a few mid-latitude positions; the claim is for a two-dimensional continuum with singular places (poles, antimeridian) that no test visits.",
     [core, rot], [("lat_lon2n_E", core), ("n_E2lat_lon (arctan2 on both components)", rot), ("E_rotation", rot)])

prop("C02", "Geodetic position to Cartesian position is exact for every ellipsoid",
     "For every position (n-vector or latitude/longitude), depth or height, ellipsoid (sphere and prolate included) and axes choice, the Cartesian position vector equals the surface point of that ellipsoid with that normal plus height times the outward normal, to rounding error. Only the direction of the n-vector matters, not its length.",
     ["inputs", "configurations"], "all positions x depths of either sign from zero to thousands of km x all ellipsoids x axes",
     "Two examples with WGS-84/WGS-72 are tested; other ellipsoids, axes, large depths and singular positions are not.",
     [core, obj], [("n_EB_E2p_EB_E", core), ("Nvector.to_ecef_vector / GeoPoint.to_ecef_vector", obj)])

prop("C03", "Cartesian position to geodetic position is the exact inverse",
     "For every Cartesian position that is not deep inside the Earth's core, every ellipsoid and every axes choice, the returned n-vector is of unit length and, with the returned depth, is exactly the position whose Cartesian vector was given (to rounding error, poles and equator included), with depth negative above and positive below the surface.",
     ["inputs", "configurations"], "all Cartesian positions farther than about 1400 km from the Earth's centre, up to astronomical heights x ellipsoids x axes",
     "One point 4700 km above the Earth is tested; the closed-form solution has cancellations and special cases on the axis, equator and for spheres that examples do not reach.",
     [core, obj], [("p_EB_E2n_EB_E / _equation23 / _compute_k", core), ("nthroot", util), ("ECEFvector.to_nvector", obj)])

prop("C04", "Any chain of representation conversions preserves the position",
     "However a position is carried from one representation to another (geographic point, n-vector, Earth-centred vector, vector in a local north-east-down, wander-azimuth or body frame), in any order and any number of times, it still denotes the same physical position with the same depth and the same reference frame. A single position stays a single position (scalar results) and an array of positions stays an array in the same order. Converting an object to its own representation changes nothing.",
     ["histories", "inputs"], "all sequences of conversions up to a depth x starting representation x positions x frames x scalar/array",
     "Tests do two fixed chains for one position; the claim is about every path through the conversion graph.",
     [obj], [("to_geo_point/to_nvector/to_ecef_vector on every class", obj), ("change_frame / Pvector.to_ecef_vector", obj), ("scalar flags", obj)],
     state=[("representation", "which class currently holds the position", obj), ("scalar", "single position or array", obj)])

prop("C05", "Delta vectors between positions are exact in every local frame",
     "For all positions A and B, the delta from A to B decomposed in the Earth frame is the difference of their Cartesian positions, and the same delta in the local frame of A (north-east-down, wander-azimuth, body) is that vector expressed on that frame's axes, so it has the same length and converts back to the same Earth-frame vector and to B when added to A. Its azimuth is measured clockwise from the first axis, its elevation is positive down, and length, azimuth and elevation together reproduce the vector.",
     ["inputs", "configurations"], "all pairs of positions (coincident, antipodal, near poles) x depths x ellipsoids x axes x frame kind x attitude",
     "Examples 1 and 2 fix one pair of positions and one attitude each.",
     [obj, core], [("delta_E/delta_N/delta_L/delta_to", obj), ("ECEFvector.change_frame, Pvector.to_ecef_vector", obj), ("n_EA_E_and_n_EB_E2p_AB_E, n_EA_E_and_p_AB_E2n_EB_E", core), ("Pvector.azimuth/elevation/length", obj)])

prop("C06", "Euler angles and rotation matrices determine each other",
     "For every three angles, the matrix built from them (in x-y-z or z-y-x order about new axes) is the proper rotation obtained by composing the three elementary rotations in that order. For every proper rotation matrix, including those in gimbal lock, the angles extracted from it rebuild that same matrix; away from gimbal lock angles with the middle one within [-90, 90] degrees are recovered themselves.",
     ["inputs"], "all triples of angles (multi-turn and negative included) and all rotation matrices, scalar or arrays of any broadcastable shape",
     "Tests use six hand-picked angle triples, each with a matrix where extraction is unambiguous.",
     [rot], [("xyz2R, zyx2R, R2xyz, R2zyx, _atleast_3d", rot)])

prop("C07", "Local frames are right-handed, level, and oriented as documented",
     "At every position and axes choice the local frame's rotation matrix is proper orthogonal, its third axis is straight down, and away from the poles its first two axes point north and east; at a pole the axes are still a valid level frame. The wander-azimuth frame is that frame turned clockwise (seen from above) by the wander azimuth, the body frame is it turned by yaw, pitch and roll, and the n-vector of the position is recovered from any of the level frames.",
     ["inputs", "configurations"], "all positions x axes x wander azimuths x attitudes, scalar and array",
     "Tests evaluate the matrices at one position.",
     [rot, obj], [("n_E2R_EN, n_E_and_wa2R_EL, R_EN2n_E, R_EL2n_E", rot), ("FrameN.R_EN, FrameL.R_EN, FrameB.R_EN", obj)])

prop("C08", "Great-circle direct and inverse problems solve each other",
     "From every start position (poles included), azimuth and distance (any number of turns, either sign), the destination is the point of the sphere reached along that great circle: it has unit n-vector, lies at that angular distance, and its measured distance and azimuth from the start reproduce the inputs up to the shorter way round. The reported arrival azimuth is the direction of travel at the destination, the depth is kept, and legs compose: moving on along the arrival azimuth continues the same great circle.",
     ["inputs", "histories", "configurations"], "all starts x azimuths x distances x sphere radii x depths x axes; all sequences of quarter-turn legs (closed finite model)",
     "One leg of 1000 m and one pair are tested, never with the other axes convention, at a pole, or beyond half a turn.",
     [core, obj], [("n_EA_E_distance_and_azimuth2n_EB_E, n_EA_E_and_n_EB_E2azimuth, great_circle_distance", core), ("GeoPoint._displace_great_circle, _distance_and_azimuth_greatcircle", obj)])

prop("C09", "Ellipsoidal geodesic direct and inverse problems solve each other",
     "For every pair of positions the ellipsoidal distance and azimuths are those of the shortest geodesic on the ellipsoid lowered to the average depth, identical with the reference geodesic solution, symmetric under exchange of the positions (azimuths turned by 180 degrees), and displacing by them leads to the second position at the depth of the first. Longitudes and azimuths come back reduced unless unrolling is requested, in which case the longitude keeps counting turns. On a sphere this agrees with the great-circle method.",
     ["inputs", "configurations"], "all pairs, azimuths and distances (zero, antipodal, meridional, equatorial, polar, multi-turn) x ellipsoids x depths x unroll x degrees/radians",
     "Twenty tabulated lines on WGS-84 at zero depth are tested, in degrees with unrolling on.",
     [obj], [("FrameE.direct, FrameE.inverse, _direct, _inverse, _outmask", obj), ("GeoPoint.displace, distance_and_azimuth", obj)])

prop("C10", "Surface and straight-line distances are accurate at every separation",
     "For all pairs of positions the great-circle distance is the radius times the angle between their normals and the Euclidean distance is the radius times the chord, accurate to rounding error from sub-millimetre separations to antipodal points. Both are symmetric, zero for coincident positions, scale with the radius given (by default that of the mean Earth, or the mean of the end points' distances from the centre for a path), and each pair of an array of pairs gets its own distance.",
     ["inputs", "configurations"], "all pairs x separations from 1e-9 m to antipodal x radii x scalar/array broadcasts",
     "One pair one degree apart is tested; conditioning at tiny and antipodal separations is untested, as are arrays.",
     [core, obj], [("great_circle_distance, euclidean_distance", core), ("GeoPath.track_distance, _get_average_radius", obj)])

prop("C11", "Cross-track distance and great-circle membership are right everywhere",
     "For every path and position the cross-track distance is the signed angle (times the radius) from the path's great circle, positive to the right of the direction of travel, finite and accurate up to a quarter turn; the Euclidean variant is the distance to the plane of the circle. A position is reported on the great circle exactly when that distance is within the tolerance, wherever along the circle it is, and reversing the path only flips the sign.",
     ["inputs", "configurations"], "all paths x along-track angles around the whole circle x cross-track angles in [-90,90] deg x radii x tolerances x arrays of paths and points",
     "A single short path near (0,0) and one at latitude 5-10 are tested with the point close by.",
     [core, obj], [("cross_track_distance, on_great_circle, great_circle_normal", core), ("GeoPath.cross_track_distance, GeoPath.on_great_circle", obj)])

prop("C12", "A position is on a path exactly when it lies between its end points",
     "For every path shorter than half a turn and every position on its great circle, the position is reported on the path if it is between the two end points (end points included) and not otherwise, for paths of any length and whichever way they run (any heading, across poles or the antimeridian). A position beside the path by more than the tolerance, or at another depth than the path's average, is not on it. The ellipsoidal method decides likewise for geodesics.",
     ["inputs", "configurations"], "all paths on a discretised great circle: every (start, end, candidate) triple of ring positions x ring orientations x offsets x depths x method",
     "Tests use 1-degree paths due north or south on one meridian and candidates next to them.",
     [core, obj], [("on_great_circle_path", core), ("GeoPath.on_path, _on_great_circle_path, _on_ellipsoid_path", obj)])

prop("C13", "The closest point on a path is on the path and no other is closer",
     "For every path and position the closest point on the great circle lies on that great circle at the cross-track distance from the position, at the path's average depth, and no other point of the circle is closer. The closest point on the path segment is that point when it falls between the end points and otherwise the nearer end point, so no point of the segment is closer. This includes positions on the circle, behind the path, and exactly 90 degrees away from it.",
     ["inputs", "configurations"], "all ring paths x all candidate positions (along x across) x depths x arrays",
     "Two candidate positions beside a one-degree path are tested.",
     [core, obj], [("closest_point_on_great_circle", core), ("GeoPath.closest_point_on_great_circle, closest_point_on_path", obj)])

prop("C14", "The intersection of two paths lies on both great circles, at the right side",
     "For every two paths that are not on the same great circle, the intersection is a unit n-vector lying on both great circles and is the one of the two antipodal solutions nearer to the first path's start; it is still one of them when the two are equally near. Its depth is the mean depth of the four end points, and each pair in arrays of paths gets its own intersection. A path crossed with itself or with its own reverse gives an undefined (NaN) position and a warning.",
     ["inputs"], "all pairs of paths among ring configurations (perpendicular, oblique, nearly parallel, start 90 degrees from the crossing, reversed) x arrays",
     "One pair of oblique paths and one identical pair are tested.",
     [core, obj], [("intersect", core), ("GeoPath.intersect", obj)])

prop("C15", "Interpolation along a path stays on it and is exact at its ends",
     "For every path and normalised time, the interpolated position has a unit n-vector on the path's great circle in the direction of the straight-line interpolation of the two n-vectors, and a depth interpolated linearly; time 0 and 1 give the end points and increasing time never moves backwards. Times outside [0, 1] extrapolate along the same great circle, arrays of times give arrays of positions, and the interpolation midway between antipodal points is undefined (NaN).",
     ["inputs", "configurations"], "all paths x times in and outside [0,1] x depths x frames x scalar/array times",
     "One polar path at one time is tested.",
     [core, obj], [("interpolate", core), ("GeoPath.interpolate", obj), ("Nvector arithmetic", obj)])

prop("C16", "Interpolation of a track of positions honours its samples and times",
     "For every track of timed positions the interpolated positions have unit n-vectors, pass exactly through the samples at the sample times, and in between follow the requested kind of interpolation (for linear, the normalised straight line between the two neighbouring samples, with depth interpolated likewise) regardless of the order in which query times are given. Times outside the track are undefined (NaN), one depth may be shared by all positions, and smoothing leaves a track that a polynomial of the requested order describes unchanged.",
     ["inputs", "configurations"], "all small tracks over a position alphabet x sample spacings x query orders x kinds x smoothing windows x depth shapes",
     "One docstring example plots a cubic; one linear query is printed.",
     [core, obj], [("interp_nvectors, _interp_vectors", core), ("Nvector.interpolate", obj)])

prop("C17", "The mean position is the direction of the summed n-vectors",
     "For every set of positions whose n-vectors do not cancel, the horizontal mean is the unit vector along the sum of their n-vectors, so it does not depend on their order, is not changed by repeating the whole set, rotates with the positions, and is the position itself for coincident positions (it is undefined, NaN, when the sum is exactly zero). The mean's depth is the mean of the depths, and the horizontal mean does not depend on the depths.",
     ["inputs"], "all multisets of positions up to a size over a position alphabet, all orders",
     "One set of three positions is tested.",
     [core, obj], [("mean_horizontal_position", core), ("Nvector.mean", obj), ("unit", util)])

prop("C18", "Array calls give exactly the per-element scalar answers",
     "For every operation that accepts several positions, calling it on arrays (of any length, or one position broadcast against many) gives for each element the answer of the corresponding single call, in order and with one answer per element; single inputs give scalar answers. This holds whatever the element values, lengths, number types, memory layout or nesting (list or array) of the inputs.",
     ["inputs", "configurations"], "all vectorised operations x array lengths (1, 2, 3, 4 and larger) x broadcast patterns x dtypes x layouts",
     "Almost all tests are scalar; the number of columns (1, 2, 3, many) changes the code's behaviour in ways examples do not show.",
     [core, rot, obj, util], [("numpy broadcasting throughout", core), ("mdot", util), ("FrameE.direct/inverse loops", obj)])

prop("C19", "Answers do not depend on the choice of Earth-frame axes",
     "The axes chosen for the Earth frame only change the components of vectors expressed on those axes. Latitude, longitude, depth, distances, azimuths, local deltas, path predicates, closest points, intersections, means, interpolations and displacements are the same in either convention (and, for the functional interface, for any rotation of the axes), and vectors transform by the axes rotation.",
     ["inputs", "configurations"], "every operation x every axes choice x positions",
     "No test uses the alternative axes with any operation but the default constructor.",
     [core, rot, obj], [("R_Ee parameters throughout", core), ("E_rotation", rot), ("FrameE.R_Ee", obj)])

prop("C20", "Object and functional interfaces give the same answers",
     "Every operation of the object-oriented interface gives the same answer as the corresponding functional call with the same ellipsoid, axes, depths and radius, and every deprecated alias gives the same answer as its replacement.",
     ["inputs", "configurations"], "every object operation with a functional counterpart x positions x depths x frames x options",
     "Tests exercise each interface on the same ten examples only.",
     [obj, core], [("GeoPoint, Nvector, ECEFvector, Pvector, GeoPath, FrameN/L/B", obj)])

prop("C21", "Equality of positions and frames is an equivalence that sees every component",
     "Comparing two positions or frames of the same kind (single, or arrays of broadcastable shapes; attitudes of body frames compared as given) is reflexive, symmetric, the exact opposite of inequality, and true exactly when they denote the same value: the same coordinates (longitudes modulo a full turn), depth and reference frame within rounding. A difference in any one component (latitude, longitude, depth, semi-axis, flattening, axes, yaw, pitch, roll, wander azimuth, origin, or any single element of an array) makes them unequal, names and history do not matter, and objects of unrelated kinds are unequal rather than an error.",
     ["inputs", "histories"], "all pairs over an alphabet of objects differing in each component by small and large amounts",
     "A dozen pairs are compared; small differences, single array elements and symmetry are not.",
     [obj, util], [("__eq__, __ne__, _is_equal_to of every class", obj), ("isclose, allclose", util)])

prop("C22", "Positions in different reference frames are never silently combined",
     "Sums, differences, deltas (Earth, north-east-down, wander-azimuth), changes of frame, distances, path operations and interpolation between positions whose reference frames differ (in semi-axis, flattening or axes) raise an error, and results always carry the frame of their operands. The same operations never raise it for equal frames, even if they are distinct objects or named differently.",
     ["configurations", "inputs"], "every combining operation x every ordered pair of frames x representations of the operands",
     "No test combines positions of different frames.",
     [obj], [("_check_frames and its callers", obj), ("FrameE._is_equal_to", obj)])

prop("C23", "Answers depend only on current argument values, never on history",
     "No operation alters its arguments, any previously created position, frame or path, or any shared constant (only the normalise-in-place method may alter its own object). Whatever sequence of operations came before, an operation gives the same answer as on freshly created equal arguments, and after a public attribute of a position, frame or path is reassigned, answers reflect the new value.",
     ["histories"], "all sequences of operations up to a depth over a pool of shared objects, including attribute reassignment",
     "Each test starts from fresh objects and never reuses them after other operations.",
     [core, rot, obj, util], [("absence of caches and in-place updates", obj), ("E_rotation's shared constant matrices", rot)],
     state=[("object pool", "positions, frames and paths shared between calls", obj), ("E_ROTATION_MATRIX / ELLIPSOID tables", "module constants", rot)])

prop("C24", "Concurrent use gives the same answers as sequential use",
     "When several threads use the library at once, on the same or different positions, frames and paths, each call returns exactly what it returns when run alone, for every interleaving, and no thread is blocked for ever.",
     ["schedules"], "all interleavings of two or three threads, one or two operations each, at source-line granularity up to a preemption bound",
     "No test uses threads; an interleaving bug appears on rare schedules only.",
     [core, rot, obj, util], [("absence of shared mutable scratch state", core)])

prop("C25", "The ellipsoid catalogue resolves every documented name to the right figure",
     "Every documented ellipsoid name and number (any capitalisation or spacing) resolves to the published semi-major axis and flattening of that ellipsoid, aliases agree with each other, unknown names are an error, and a frame created from a name has exactly those parameters. A frame created with an explicit semi-axis or flattening uses the values given. (WGS84, GRS80 and NAD83 are documented as one entry.)",
     ["inputs", "configurations"], "every catalogue entry x name spelling variants x explicit parameter combinations",
     "Two of nineteen entries are looked up in tests.",
     [util, obj], [("ELLIPSOID, ELLIPSOID_IX, get_ellipsoid", util), ("FrameE.__init__", obj)])

prop("C26", "Undefined inputs give NaN for that element and affect no other element",
     "A NaN coordinate, depth, angle, distance or time yields NaN for the answers of that element that depend on it (and False for predicates), never a plausible number, and never disturbs the answers of other elements of the same call nor raises an error. The same holds for degenerate paths: cross-track distance, closest point on the great circle and intersection are NaN for a path whose ends are exactly coincident or exactly opposite, as are the intersection of a path with itself or its reverse and the midpoint of opposite positions. Latitudes beyond 90 degrees give NaN in the ellipsoidal methods. Conversely, valid elements never yield NaN.",
     ["inputs"], "every vectorised operation x every position of the undefined element(s) in the array x which component is NaN",
     "Two geodesic calls with a scalar NaN and one identical-path intersection are tested.",
     [core, rot, obj, util], [("unit(norm_zero_vector)", util), ("great_circle_normal, intersect, interpolate", core), ("FrameE.inverse/direct", obj)])

prop("C27", "Numeric helpers meet their documented definitions on all special values",
     "The closeness tests are symmetric and true exactly when the difference is within the larger of the absolute and the relative tolerance, with infinities equal only to themselves and NaNs only if asked; normalisation gives unit columns in the same direction for every magnitude (short of overflow or underflow of its square) and its documented substitute for zero columns; the n-th root of a non-negative number to the n-th power gives the argument; the multiple matrix product agrees with per-slice matrix products for every combination of shapes.",
     ["inputs"], "all pairs over an alphabet of special floating-point values x tolerances; all shape combinations; magnitudes 1e-150..1e150",
     "Docstring examples try a few ordinary values.",
     [util], [("isclose, allclose, unit, nthroot, mdot, deg, rad, array_to_list_dict", util)])

prop("C28", "Degree and radian use are interchangeable everywhere",
     "Every operation that can be asked to work in degrees gives exactly the answer of the radian form with angles converted, for inputs and outputs alike, for single values and arrays, and converting degrees to radians and back is the identity to rounding error. Lengths, depths and flags are unaffected by the choice.",
     ["inputs", "configurations"], "every operation with a degree option x angle alphabets x scalar/array x other options",
     "Each test uses one of the two forms per operation.",
     [obj, util], [("degrees= parameters of GeoPoint, displace, distance_and_azimuth, FrameE.direct/inverse, FrameB", obj), ("deg, rad", util)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
prop("C29", "Sums, differences and multiples of positions obey vector algebra",
     "Adding, subtracting and negating n-vectors or Earth-centred vectors, and multiplying or dividing n-vectors by numbers (on either side) or by one number per position, acts on every component and, for n-vectors, likewise on the depth; so sums commute, differences are sums with the negative, and any sequence of these operations gives the vector that exact vector algebra gives. One vector combines with many, the frame is kept, single results stay single, and the operands never change. A product or quotient of two n-vectors is refused. Normalising in place makes every n-vector a unit vector of the same direction and leaves depth and frame alone.",
     ["inputs", "histories"], "all sequences of sums, differences, negations, multiples and quotients of single or array vectors in either frame",
     "Tests add and scale one or two vectors once; sequences of operations, one-against-many, depths as lists or arrays and reflected operators are not covered.",
     [obj], [("Nvector.__add__/__sub__/__neg__/__mul__/__div__/unit", obj), ("ECEFvector.__add__/__sub__/__neg__", obj)])

prop("C30", "Copies, pickles and printed forms are faithful and independent",
     "Copying, deep copying or pickling and unpickling (every protocol) any position, vector, frame or path, alone or together with others and after any use, gives an object of the same kind with the same public values that equals the original and answers every operation alike; afterwards a change to one of the two is seen there and never on the other (a shallow copy shares only its arrays). The printed form names the class and shows every public value in full, is the same each time, and printing changes nothing.",
     ["histories", "inputs"], "all objects x ways of duplicating x uses and reassignments before and after x values including infinities and NaN",
     "No test copies or pickles an object after using it; state kept in an object besides its public values shows up only in such histories.",
     [obj, util], [("_Common.__repr__", obj), ("array_to_list_dict", util), ("attributes of all classes", obj)])

prop("C31", "Warnings are given exactly where they are documented",
     "An operation that expects a unit n-vector warns exactly when the length of the (first) n-vector given differs from one by more than 0.1, each time, and still answers for its direction; an intersection warns exactly when some intersection asked for is undefined; every deprecated name warns that it is deprecated on each use and its replacement does not; and no operation gives a warning for valid input, single or array.",
     ["inputs", "histories"], "all operations x n-vector lengths x positions x frames x paths x sequences of calls",
     "Tests only sample calls with correct input; which inputs warn is a condition on a continuum, and repeated warnings depend on history.",
     [util, core, obj], [("_check_length_deviation", util), ("intersect", core), ("deprecated aliases", obj)])

prop("C32", "Answers respect the symmetries of the Earth and of paths",
     "Turning every position about the Earth's axis by any angle, or mirroring it north-south or east-west, gives the same answers turned or mirrored likewise: longitudes shift, latitudes, azimuths, local components and attitudes change sign or supplement as the mirror prescribes, and lengths, depths and truth values stay the same. Cross-track distances and great-circle normals change sign under mirrors. On a sphere this holds for every rotation and reflection, for all answers that are positions, vectors or lengths. Exchanging the ends of a path negates its delta vector, normal and cross-track distances, turns its geodesic azimuths round, and changes nothing else. (At the poles, where north is a convention, only answers that do not use north are meant.)",
     ["inputs", "configurations"], "all operations x all turns, mirrors and their products x positions x ellipsoids x axes x single or array arguments",
     "Every test uses one place on the Earth; an answer that is right on one hemisphere, quadrant or direction of travel and wrong on another passes.",
     [core, rot, obj], [("all position, frame, distance and path operations", core), ("GeoPoint, Nvector, ECEFvector, FrameN/L/B, GeoPath operations", obj), ("n_E2R_EN, n_E_and_wa2R_EL, n_E2lat_lon", rot)])

prop("C33", "The unit of length is free: lengths scale and nothing else changes",
     "If the semi-axis of the Earth, all depths, distances, radii, Cartesian components and length tolerances are given in another unit (or for an Earth of another size), then every length, depth and Cartesian component answered comes back in that unit and every direction, angle, rotation matrix, flag and truth value is the same, for sizes from far below a metre to astronomical ones. (on_path on the ellipsoid, whose one tolerance serves lengths and angles, is excepted.)",
     ["inputs", "configurations"], "all operations with lengths x all units x positions x ellipsoids x axes x single or array arguments",
     "Tests use metres and Earth-sized bodies only; a constant or tolerance that silently assumes them is invisible.",
     [core, obj], [("n_EB_E2p_EB_E, p_EB_E2n_EB_E and all functions of a, f or radius", core), ("GeoPath distances, membership and nearest points", obj), ("displace, distance_and_azimuth, FrameE.direct/inverse", obj)])

prop("C34", "Every way of writing a call means the same; options default as documented",
     "For every public function, class and method, arguments may be given by position or by name, in any order, with the same answer; an option left out acts exactly as its documented default whatever the other options are; every option acts in combination with every other; a combination that is refused is refused in every form; and deprecated or alternative names give the answer of the operation they stand for. Objects made through a frame equal those made with the frame as argument, and without a frame the WGS-84 ellipsoid with axes 'e' is used.",
     ["configurations", "inputs"], "all operations x all combinations of options left out, defaulted or set x all splits into positional and named arguments x single or array arguments",
     "Tests call each operation in one or two of the exponentially many forms and mostly with default options.",
     [core, rot, obj, util], [("signatures and defaults of all public functions", core), ("constructors and methods with options", obj), ("isclose, allclose, unit", util), ("deprecated aliases", obj)])

prop("C35", "Answers vary smoothly: there are no thresholds and no steps",
     "As one argument (a position, angle, depth, distance, time or attitude) moves, every answer moves smoothly with it: there is no value, near a pole, the equator, the date line, another position, its antipode, a quarter turn, zero length, a gimbal lock, the end of a path or anywhere else, at which an answer jumps, is rounded, clipped or replaced by an approximation, in single or array calls, and there is no isolated value without an answer. The places at which an answer really is singular (directions at a pole or between coinciding positions, paths of no length) are approached smoothly from each side, and where the answer itself is well conditioned (positions, vectors, distances, depths) the special value continues its surroundings. (Truth values, the choice between the two intersections of great circles, and nodes of an interpolated track are excepted.)",
     ["inputs"], "all operations x each argument on ladders towards all special values and in steps through its range x single or array arguments x ellipsoids x axes",
     "Tests sample isolated places; a branch for small angles, near poles or large distances can be wrong in a band that no sample meets.",
     [core, rot, obj], [("all position, frame, distance, path and interpolation operations", core), ("n_E2lat_lon, n_E2R_EN, R2xyz, R2zyx and their inverses", rot), ("GeoPoint, Nvector, ECEFvector, FrameN/L/B, GeoPath operations", obj)])

with open(out, "w") as fid:
    for p in P:
        fid.write(json.dumps(p) + "\n")
print(len(P), "properties")
