#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
PK = "eoxmagmod/eoxmagmod/"
MM = PK + "magnetic_model/"
P = []

def add(id_, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id_, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    P.append({"id": id_, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": anchors})

add("P01", "Coordinate conversions are exact, mutually inverse and path independent",
    "Converting positions between geodetic (above WGS84), geocentric spherical and geocentric Cartesian coordinates gives the point defined by the exact geometry of the two systems. Converting there and back returns the original position (up to the angular identities of longitude and of the poles), and converting through any third system gives the same result as converting directly; converting to the same system is the identity.",
    ["inputs"],
    "every latitude, longitude (any wrap), and radius/height for positions outside the central region of the Earth, incl. poles, date line, equator and points on axes; all 9 pairs of systems",
    "the tests convert one fixed random sample with formulas copied from the implementation and compare a handful of shapes; they cannot settle round trips and path independence for every position, nor the exact pole/axis/date-line values",
    [PK + "pymm_cconv.h", PK + "include/geo_conversion.h", PK + "pymm_coord.h"],
    [("conversion dispatch by pair of coordinate types", PK + "pymm_cconv.h"),
     ("geodetic<->Cartesian (closed form inverse), Cartesian<->spherical", PK + "include/geo_conversion.h")],
    ["eoxmagmod.convert"])

add("P02", "Vector rotations are orthonormal and consistent with the coordinate frames",
    "Rotating a vector between the local frames of the geodetic, spherical and the Cartesian systems preserves its length, is linear, and equals the change of basis between the unit vectors defined by the position (north, east, up of each system). Rotating there and back returns the original vector, and the generic rotation entry point agrees with the pairwise rotations for every pair of coordinate systems; vector norm, inclination and declination follow their geometric definitions for every vector.",
    ["inputs"],
    "every vector (incl. zero, axis aligned, huge/tiny), every position incl. poles and date line, all 9 pairs of frames",
    "tests use a few hand written vectors and one grid with the rotation formula repeated; they do not quantify over vectors and positions nor tie rotations to the geometry of the coordinate conversion",
    [PK + "util.py", PK + "pymm_vrot_sph2geod.h", PK + "pymm_vrot_sph2cart.h", PK + "pymm_vrot_cart2sph.h", PK + "pymm_vrot_common.h"],
    [("dispatch of the rotation by frame pair", PK + "util.py:vrotate"),
     ("elementary rotations", PK + "include/math_aux.h"),
     ("norm/inclination/declination", PK + "util.py:vnorm, vincdecnorm")],
    ["eoxmagmod.vrotate", "eoxmagmod.vrot_sph2geod", "eoxmagmod.vrot_sph2cart", "eoxmagmod.vrot_cart2sph", "eoxmagmod.vnorm", "eoxmagmod.vincdecnorm"])

add("P03", "Associated Legendre functions equal their mathematical definition",
    "For every latitude and every maximum degree the returned arrays contain the Schmidt semi-normalised associated Legendre functions of the sine of the latitude and their derivatives by the colatitude-consistent sign convention, for all degrees and orders up to the maximum. The values of a given degree and order do not depend on the requested maximum degree beyond rounding.",
    ["inputs"],
    "every latitude in [-90, 90] incl. poles and their close neighbourhood, every maximum degree from 0 to several hundreds (both internal algorithms and the switch between them)",
    "tests evaluate a few latitudes at a few fixed degrees with another floating point recursion; the pole neighbourhood, degree 0/1 and algorithm switch are not covered for all inputs",
    [PK + "pymm_legendre.h", PK + "include/spherical_harmonics.h"],
    [("low and high degree recursions and their switch", PK + "include/spherical_harmonics.h:shc_legendre*")],
    ["eoxmagmod.legendre"])

add("P04", "Longitude and relative-radius series equal their closed forms",
    "For every longitude the series of sines and cosines of its multiples equals the directly evaluated values for every order and with either evaluation method. For every radius, reference radius and degree the relative radius powers equal the closed form powers of the internal (decaying) respectively external (growing) expansion.",
    ["inputs"],
    "all longitudes incl. large wraps, all degrees from 0 to several hundreds, all positive radii and reference radii, both methods and both kinds of expansion",
    "tests compare fixed longitudes and radii at few degrees; drift of recurrences with degree and special arguments are not quantified over",
    [PK + "pymm_loncossin.h", PK + "pymm_relradpow.h", PK + "include/spherical_harmonics.h"],
    [("fast recurrence and direct trigonometric evaluation", PK + "include/spherical_harmonics.h:shc_azmsincos*"),
     ("power recurrences", PK + "include/spherical_harmonics.h:shc_relradpow*")],
    ["eoxmagmod.loncossin", "eoxmagmod.relradpow"])

add("P05", "Spherical harmonic evaluation equals the series and its true gradient",
    "For any coefficients, maximum degree, kind of expansion (internal or external) and position, the evaluated potential equals the mathematical spherical harmonic series and the evaluated vector is the spatial gradient of that same potential expressed in the requested frame, also at and next to the poles. The potential alone, the gradient alone and both together give the same numbers, and evaluation by the elementary building blocks (Legendre functions, longitude and radial series) gives the same numbers as the one-step evaluation.",
    ["inputs"],
    "all coefficient sets and degrees 0..~120, all positions outside of the Earth's centre in all three input systems, all output systems, both expansions, all modes",
    "tests compare stored reference values and Python re-implementations for one fixed model and positions away from critical ones; the equality to the series and to the derivative is universally quantified over coefficients and positions",
    [PK + "pymm_sheval.h", PK + "pymm_spharpot.h", PK + "pymm_sphargrd.h", PK + "include/spherical_harmonics.h", PK + "pymm_sphar_common.h"],
    [("series summation and polar special case", PK + "include/spherical_harmonics.h:shc_eval*"),
     ("coordinate conversion, evaluation and rotation of the result", PK + "pymm_sheval.h"),
     ("building blocks", PK + "pymm_spharpot.h, pymm_sphargrd.h")],
    ["eoxmagmod.sheval", "eoxmagmod.spharpot", "eoxmagmod.sphargrd"])

add("P06", "Spherical harmonic evaluation is linear, scalable and degree-truncation exact",
    "The evaluated potential and gradient are linear in the coefficients, are multiplied exactly by the requested potential respectively gradient scale (a scalar or one factor per vector component), and evaluation truncated at a degree equals evaluation of coefficients cut or zeroed above that degree. Rotating the whole configuration about the Earth's axis (coefficients and longitude) or expressing the same positions in other coordinate systems does not change the field.",
    ["inputs"],
    "all pairs of coefficient sets, all scalars and scales, all truncation degrees incl. negative and larger than available, all rotations about the axis",
    "metamorphic relations over arbitrary coefficients; the tests use one model with default scales mostly",
    [PK + "pymm_sheval.h", PK + "include/spherical_harmonics.h"],
    [("scale arguments and degree handling", PK + "pymm_sheval.h")],
    ["eoxmagmod.sheval"])

add("P07", "Array evaluation equals pointwise evaluation for every shape and layout",
    "Each vectorised operation of the low level interface, given arrays of any dimension (0, 1, more, empty), memory layout (non-contiguous, reversed, transposed, Fortran ordered, broadcast with zero strides) or convertible number type, returns an array of the documented shape whose every element equals the result of evaluating that element alone. Result elements depend only on the corresponding input elements, not on their neighbours, order or history, and the inputs are never modified.",
    ["inputs", "histories"],
    "all vectorised functions (conversions, rotations, series, spherical harmonics incl. time-dependent and Fourier, interpolation, bisection, times, Sun position), all shapes and strides, all orders of points incl. repeated ones",
    "tests run contiguous arrays of few shapes; caches of previous latitude/radius/time and stride handling only show for particular orders and layouts",
    [PK + "pymm_aux.h", PK + "py_common.h", PK + "pymm_sheval.h", PK + "pymm_shevaltemp.h", PK + "pymm_sheval2dfs.h", PK + "pymm_cconv.h"],
    [("recursive nD array walking with strides", PK + "pymm_aux.h"),
     ("caching of previously evaluated latitude, longitude, radius, time", PK + "pymm_sheval.h, pymm_shevaltemp.h, pymm_sheval2dfs.h")],
    ["eoxmagmod._pymm.*", "eoxmagmod._pysunpos.*", "eoxmagmod._pytimeconv.*"])

add("P08", "Time-dependent evaluation equals static evaluation of interpolated coefficients",
    "Evaluating the field at a time from time series of coefficients gives the same result as interpolating (piecewise constant or linear, extrapolating outside of the series) each sparse coefficient at that time and evaluating the static series with them, for any number of series with different time nodes, interpolation kinds and degrees. Contributions of several series to the same degree and order add up.",
    ["inputs"],
    "all numbers of series (incl. none contributing), numbers of time nodes, node spacings, times before/at/between/after nodes in any order, sparse degree-order selections, all frames, modes and scales",
    "tests use one model with one series and fixed times; node hits, extrapolation, mixed kinds, repeated and interleaved times are not enumerated",
    [PK + "pymm_shevaltemp.h", PK + "include/interpolation.h", PK + "include/bisect.h"],
    [("interpolation of sparse series into the coefficient buffer with cached interval", PK + "pymm_shevaltemp.h"),
     ("interpolation basis", PK + "include/interpolation.h")],
    ["eoxmagmod._pymm.shevaltemp"])

add("P09", "2D Fourier series and Fourier-driven field evaluation equal direct summation",
    "The 2D Fourier series evaluated at two phase coordinates equals the direct sum of its terms for any range of wave numbers and scaling. The field evaluated from Fourier-expanded coefficients at given times equals the static evaluation with the coefficients obtained from that sum.",
    ["inputs"],
    "all wave number ranges (positive, negative, asymmetric, empty on one side), all coefficient arrays, scales and phases, all times/positions, frames and modes",
    "tests use the single wave number extent of one product; asymmetric and negative ranges need generated extents",
    [PK + "pymm_fourier2d.h", PK + "include/fourier_series.h", PK + "pymm_sheval2dfs.h"],
    [("sine/cosine tables and summation", PK + "include/fourier_series.h"),
     ("evaluation of the series for each coefficient", PK + "pymm_sheval2dfs.h")],
    ["eoxmagmod._pymm.fourier2d", "eoxmagmod._pymm.sheval2dfs"])

add("P10", "Interval search and series interpolation match their definition",
    "For any sorted nodes and any values the interval search returns the index of the half-open interval containing the value (on the chosen side), -1 below all nodes (or not a number) and the last index above them. Interpolation of series (piecewise constant, linear, and derivative of linear) returns the defined value inside of the range, is exact at nodes, and outside of the range returns the extrapolation or not-a-number as requested.",
    ["inputs"],
    "all sorted node arrays of any length (incl. one and repeated nodes), all values incl. nodes themselves, neighbours one rounding step apart, infinities and NaN; both sides, all kinds, extrapolation on and off, any coefficient dimensions",
    "tests probe a few regular node arrays; off-by-one errors at nodes and lengths need exhaustive generated node/value pairs",
    [PK + "pymm_bisect.h", PK + "include/bisect.h", PK + "pymm_interp.h", PK + "include/interpolation.h"],
    [("halving search", PK + "include/bisect.h"), ("basis functions and clipping of indices", PK + "include/interpolation.h")],
    ["eoxmagmod._pymm.bisect", "eoxmagmod._pymm.interp"])

add("P11", "Time conversions follow the calendar, are monotonic and mutually inverse",
    "Conversions between MJD2000 and decimal years map the start of every calendar year to the whole year number and are linear within the year (365 or 366 days), hence monotonic and inverse of each other; the year fraction is the fractional part of the decimal year and lies in [0, 1) (to rounding). The simplified 365.25-day conversions are mutually inverse and consistent with each other, and the conversion of a calendar date-time gives the same decimal year as that of the same instant in MJD2000.",
    ["inputs"],
    "all instants of the Gregorian calendar (years 1583-100000, and the Julian years -4711-1581 before), incl. year boundaries and one rounding step around them, leap and century years",
    "tests sample 100 random times; leap/century rules and boundaries must hold for every year",
    [PK + "include/time_conversion.h", PK + "time_util.py", PK + "pytimeconv.c"],
    [("integer calendar arithmetic", PK + "include/time_conversion.h"), ("simple conversions and datetime conversion", PK + "time_util.py")],
    ["eoxmagmod.mjd2000_to_decimal_year", "eoxmagmod.decimal_year_to_mjd2000", "eoxmagmod.mjd2000_to_year_fraction", "eoxmagmod.time_util.*"])

add("P12", "Sun position is astronomically correct and geometrically consistent",
    "For every time in the validity period of the ephemeris the declination, right ascension and hour angle agree with the Sun's true position, and for every position the azimuth and zenith angles are those of the direction given by the declination, the local hour angle and the latitude (with parallax by radius). The hour angle grows one-to-one with longitude (wrapped), the outputs are finite numbers for every finite input, including the sub-solar point itself, and the original reference algorithm gives the same result without refraction.",
    ["inputs"],
    "all times 1970-2110 and beyond, all latitudes/longitudes/radii and time offsets incl. the sub-solar and anti-solar point and the poles",
    "tests compare one stored sample; the singular geometry and range wrapping are measure-zero for random samples",
    [PK + "include/sun_ephemeris.h", PK + "pysunpos.h", PK + "pysunpos_original.h", PK + "solar_position.py"],
    [("Grena algorithm 5, equatorial and horizontal parts", PK + "include/sun_ephemeris.h")],
    ["eoxmagmod.sunpos", "eoxmagmod.sunpos_original"])

add("P13", "Sub-solar point, magnetic local time and magnetic universal time are consistent",
    "The sub-solar point is the point with the Sun in the zenith at the given time; magnetic local time equals 12 hours plus the quasi-dipole longitude difference from the dipole longitude of the sub-solar point, and the magnetic universal time equals 12 hours minus the dipole longitude of the sub-solar point (in hours, around the given pole; the position of the Sun is the one given by the user, or of the Sun model when it is not given completely). Each is continuous modulo a full turn for all times before and after 2000, results do not depend on the other elements of the batch beyond the documented one-day resolution of the pole, and a time or value out of the domain never disturbs other elements or the calling process.",
    ["inputs", "histories"],
    "all times from 1900 to 2100 (and out of range and non-finite times), all longitudes and pole positions, any batches",
    "tests compare a stored sample of times after 2000 only; day boundaries before 2000, out-of-range times and batches in other orders are not reached",
    [PK + "magnetic_time.py", PK + "quasi_dipole_coordinates.py", PK + "pyqd_eval_mlt.h", PK + "pyqd_eval_subsol.h", "qdipole/eval_mlt.f90", "qdipole/eval_subsol.f90", "qdipole/apex.f90"],
    [("day-of-year and sub-solar point evaluation", "qdipole/eval_subsol.f90, qdipole/apex.f90:SUBSOL, TMJD"),
     ("dipole pole from the main field coefficients", "qdipole/apex.f90:COFRM, DYPOL"),
     ("MLT", "qdipole/apex.f90:MAGLOCTM"), ("MUT", PK + "magnetic_time.py")],
    ["eoxmagmod.eval_subsol", "eoxmagmod.eval_mlt", "eoxmagmod.mjd2000_to_magnetic_universal_time"],
    [("MAGCOF common block", "last loaded epoch and coefficients", "qdipole/apex.f90")])

add("P14", "Quasi-dipole coordinates equal the apex expansion of the selected file and epoch",
    "Quasi-dipole latitude, longitude and base vectors equal the values of the apex spherical harmonic expansion stored in the selected coefficient file, interpolated to the requested epoch (clamped to the file's epochs), at the geodetic position of the requested point. They do not depend on previously evaluated times, positions or files or on other elements of the batch (beyond the one-day epoch resolution), the variants with and without base vectors agree, and the base-vector magnitude equals the cross product of the base vectors.",
    ["inputs", "histories"],
    "all positions above the surface, all times, all shipped coefficient files, all batches and all call sequences alternating files, times and variants; non-finite inputs",
    "the wrapped library keeps the file, epoch, and altitude in global state; tests run one fixed table with one file in one order",
    ["qdipole/apexsh.f90", "qdipole/eval_qdlatlon.f90", "qdipole/apex.f90", "qdipole/cqdipole.c", PK + "pyqd_eval_qdlatlon.h", PK + "quasi_dipole_coordinates.py"],
    [("loading and interpolation of the coefficients", "qdipole/apexsh.f90:loadapxsh"),
     ("evaluation with cached altitude", "qdipole/apexsh.f90:apxg2q"),
     ("epoch cache in the batch loop", "qdipole/eval_qdlatlon.f90"),
     ("geocentric to geodetic conversion", "qdipole/apex.f90:CONVRT")],
    ["eoxmagmod.eval_qdlatlon", "eoxmagmod.eval_qdlatlon_with_base_vectors"],
    [("apxshmodule", "file name, epoch, altitude and coefficient arrays of the last call", "qdipole/apexsh.f90")])

add("P15", "Dipole coordinates are the rigid rotation defined by the north geomagnetic pole",
    "Conversion to dipole coordinates is the rotation of space that takes the given north geomagnetic pole to the dipole axis and preserves radius and angles, for any pole and any input coordinate system; the vector rotation back is its inverse applied to the local frames and preserves length. A spherical harmonic field evaluated in the dipole frame equals the physical field of the rotated source: potential unchanged, gradient equal to the true gradient in the requested frame.",
    ["inputs"],
    "all pole positions incl. geographic poles, all positions and vectors, all frames, both expansions, all modes",
    "tests use one pole location and repeat the implementation formula",
    [PK + "dipole_coords.py", PK + "dipole.py"],
    [("rotation matrix", PK + "dipole_coords.py:get_dipole_rotation_matrix"),
     ("conversion of coordinates and vectors", PK + "dipole_coords.py:convert_to_dipole, vrot_from_dipole"),
     ("evaluation in the dipole frame", PK + "dipole.py:sheval_dipole")],
    ["eoxmagmod.get_dipole_rotation_matrix", "eoxmagmod.convert_to_dipole", "eoxmagmod.vrot_from_dipole", "eoxmagmod.sheval_dipole"])

add("P16", "Model evaluation equals the negative gradient of its coefficients at each time",
    "A model evaluated at a time and position gives the negative gradient of the spherical harmonic potential with the model's own coefficients for that time (restricted to the requested degrees and multiplied by the requested scale) in the requested frame. Times and positions broadcast along common leading dimensions with element-wise results equal to single evaluations, and outside of the model's validity the result is not-a-number.",
    ["inputs", "configurations"],
    "all kinds of coefficient sets (constant, time-dependent in MJD2000 or decimal years, custom time conversions, piecewise constant/linear, subsets of degrees), all times incl. validity bounds, all shape combinations of times and positions, all frames, dipole and geographic models",
    "tests compare the model to the same code path for a few loaded files and shapes; optimised and default evaluation must agree for every combination",
    [MM + "model.py", MM + "coefficients.py", MM + "util.py", PK + "dipole.py"],
    [("selection of optimised and default evaluation", MM + "model.py:_select_evaluation_method"),
     ("broadcasting", MM + "util.py:reshape_times_and_coordinates"),
     ("coefficients at a time and degree subsets", MM + "coefficients.py")],
    ["model.eval(...)", "coefficients(time)"])

add("P17", "Combined and composed coefficient sets follow sum and first-match semantics",
    "Coefficients combined of several sets equal the sum of the sets at the given time, valid on the intersection of their validities; coefficients composed of several sets equal the first set valid at the given time, valid on the union, whatever the order, overlap or nesting of the sets. A model built on such coefficients evaluates exactly those coefficients at every valid time, for scalar and array times alike (at the very instant where validities of composed sets end, start or touch, any set valid at that instant), and the reported degrees are the extremes over the sets.",
    ["inputs", "configurations"],
    "all nestings of combined and composed sets of constant and time-dependent coefficients with any validity intervals (overlapping, nested, touching, unbounded, of non-zero length), time scales, degree ranges; all times incl. interval bounds",
    "tests compose two or three adjacent sets and never evaluate a model on overlapping or nested ones",
    [MM + "coefficients.py", MM + "util.py", MM + "model.py"],
    [("sum and first match", MM + "coefficients.py:CombinedSHCoefficients, ComposedSHCoefficients"),
     ("decomposition to time intervals", MM + "util.py:get_nonoverlapping_intervals, aggregate_intersected_intervals")],
    ["coefficients(time)", "coefficients.validity", "model.eval(...)"])

add("P18", "A composed model is the scaled sum of its parts with combined parameters",
    "A model composed of any number of models with scales and preset parameters evaluates to the sum of scale times each part evaluated with its preset parameters, in any requested frame and with any overall scale. Its validity is the intersection of the parts' validities, outside of it the result is not-a-number, the required parameters are the union of the parts', and an empty composition gives zero field.",
    ["inputs", "configurations"],
    "all numbers and nestings of composed models, all scales (incl. zero and negative), frames and options, all times and positions",
    "tests cover a few compositions of real models with default options",
    [MM + "model_composed.py"],
    [("accumulation and rotation of the parts", MM + "model_composed.py:eval"), ("validity overlap", MM + "model_composed.py:_validity_overlap")],
    ["ComposedGeomagneticModel.eval", ".validity", ".parameters"])

add("P19", "Ionospheric (MIO) models switch by radius, scale with F10.7 and follow the Sun",
    "The ionospheric model's field is the field of its Fourier-expanded coefficients (season and magnetic universal time) in the dipole frame multiplied by one plus the Wolf ratio times F10.7; the primary field uses the below-ionosphere expansion under the ionosphere's radius and the above-ionosphere expansion over it. Both expansions give a continuous radial field across the current sheet, scalar and array times, positions, and F10.7 values give element-wise results equal to single evaluations, and times out of validity give not-a-number.",
    ["inputs", "configurations"],
    "all times, positions below/above/at the sheet in all input systems, all F10.7 values, poles, heights, wave number extents, degree subsets and shape combinations",
    "tests evaluate a handful of times and positions of one file; mixtures of positions above and below with other shapes are not reached",
    [MM + "model_mio.py", MM + "coefficients_mio.py", MM + "loader_mio.py", MM + "parser_mio.py"],
    [("masking by radius", MM + "model_mio.py:MIOPrimaryGeomagneticModel.eval"),
     ("F10.7 scaling and phases", MM + "model_mio.py:DipoleMIOGeomagneticModel.eval"),
     ("external coefficients from internal ones", MM + "loader_mio.py:convert_external_mio_coeff")],
    ["load_model_swarm_mio_internal", "load_model_swarm_mio_external"])

add("P20", "SHC files load to exactly the coefficients, times and options they contain",
    "For every well-formed SHC file (comments, header with degree range, number of times, spline order and steps, coefficient rows) the loaded coefficients reproduce at every snapshot time the values written in the file and between them the interpolation of the declared order, with the validity given by the file or overridden by the caller. Several files given together are combined or composed in the given order, the same data as path or open file load identically, and a malformed file (missing, superfluous or non-numeric fields, coefficients which do not match the times) is rejected with an error.",
    ["inputs", "programs"],
    "all degree ranges, numbers of times (incl. one), spline orders (1 piecewise constant, 2 and more piecewise linear), caller's overrides, time scales, number formats, leading comments and blank lines",
    "tests load a few shipped files, all of one layout (no order-1 file, no minimum degree above 1 with multiple times ...)",
    [MM + "parser_shc.py", MM + "loader_shc.py", MM + "util.py"],
    [("parsing", MM + "parser_shc.py"), ("construction of coefficients and options", MM + "loader_shc.py:load_coeff_shc")],
    ["load_coeff_shc", "load_model_shc", "load_coeff_shc_combined", "load_coeff_shc_composed"])

add("P21", "WMM, IGRF, EMM and MIO text files load to exactly their contents",
    "For every well-formed WMM, IGRF (text), EMM (static plus secular variation) and MIO file the loaded model reproduces the written Gauss coefficients at their epochs, extrapolates with the written secular variation over the documented period, and has the documented validity, degree range and model parameters. Inconsistent or malformed files are rejected with an error rather than silently misread.",
    ["inputs", "programs"],
    "all degrees, epochs, coefficient values and row orders of generated files of the four formats",
    "tests load one file per format (and the EMM static file is missing); generated files reach the other degrees, epochs and inconsistencies",
    [MM + "parser_wmm.py", MM + "loader_wmm.py", MM + "parser_igrf.py", MM + "loader_igrf.py", MM + "parser_emm.py", MM + "loader_emm.py", MM + "parser_mio.py", MM + "loader_mio.py"],
    [("parsers", MM + "parser_*.py"), ("loaders", MM + "loader_*.py")],
    ["load_coeff_wmm", "load_coeff_igrf", "load_coeff_emm", "load_coeff_swarm_mio_*", "load_model_*"])

add("P22", "Swarm MMA products load and merge to the contained time series",
    "For every well-formed set of MMA products the loaded model reproduces at each time node the coefficients stored in the files with piecewise-linear interpolation between, for each of the variants (2C, 2F geographic/SM, internal/external) and the proper frame. Several files of consecutive times merge to the concatenated series, and files with different coefficient sets or times out of order are rejected.",
    ["inputs", "programs"],
    "all numbers of files, time nodes, cadences, coefficient selections and values",
    "tests load one file of each kind and merge copies of it shifted in time",
    [MM + "loader_mma.py", MM + "parser_mma.py"],
    [("reading of CDF variables", MM + "parser_mma.py"), ("merging", MM + "loader_mma.py:_merge_coefficients")],
    ["load_coeff_swarm_mma_*", "load_model_swarm_mma_*"])

add("P23", "Traced field lines follow the model's field between their stopping bounds",
    "The traced line passes through the requested point, its successive points advance along the model's field direction (tangent to the field within the integration step error), it continues in both directions until leaving the allowed radius range (or the step limit), and the field returned with each point is the model's field at that point in the requested frame. The traced line is the same curve whichever input and output coordinate systems are used.",
    ["inputs"],
    "all starting points, times, dipole-like and multipole models, step and radius options and coordinate systems",
    "tests trace few lines of one model and compare end points only",
    [MM + "field_lines.py"],
    [("integration and stop condition", MM + "field_lines.py:_trace_field_line, _convergence_condition"),
     ("assembly of both directions and output conversion", MM + "field_lines.py:trace_field_line")],
    ["eoxmagmod.trace_field_line"])

add("P24", "Low level calls return or raise but never corrupt memory or kill the process",
    "Whatever objects, shapes, types and values are passed to the compiled interface, the call either returns a correctly shaped result or raises a Python exception; it never reads or writes outside of its buffers, terminates or hangs the process, and leaves no memory allocated in excess. Inconsistent arguments (wrong dimensions, too few coefficients, invalid degree-order indices, unknown coordinate systems or modes) are rejected by an exception.",
    ["inputs", "fault_sequences"],
    "all argument values, types and shapes (ill-formed included) of all functions of the four compiled modules and the quasi-dipole wrappers",
    "tests pass well-formed arguments; out-of-bounds accesses do not show without generated malformed arguments under an address sanitizer",
    [PK + "pymm_aux.h", PK + "py_common.h", PK + "pymm.c", PK + "pyqd.c", PK + "pysunpos.c", PK + "pytimeconv.c", PK + "pymm_shevaltemp.h", PK + "pymm_sheval2dfs.h"],
    [("argument casting and dimension checks", PK + "pymm_aux.h, py_common.h"), ("object life cycles", PK + "pymm_*.h")],
    ["exit status and exceptions of calls to eoxmagmod._pymm, _pyqd, _pysunpos, _pytimeconv"])

add("P25", "Results are pure functions of the arguments over any history of calls",
    "Any sequence of loading, composing, evaluating and tracing operations leaves loaded models, coefficient sets, arguments and module constants unmodified: the same request gives bit-identical results whenever it is repeated and whatever was evaluated in between, in this or another object. No call changes arrays passed by the caller.",
    ["histories"],
    "all interleavings of evaluations with different options, times, positions, files and models sharing coefficient objects",
    "tests create fresh objects for each test method; hidden state (global Fortran state, shared option dictionaries, cached buffers, in-place scaling) shows only over histories",
    [MM + "model.py", MM + "model_mio.py", MM + "model_composed.py", MM + "coefficients.py", "qdipole/apexsh.f90", PK + "pymm_shevaltemp.h"],
    [("options passed by keyword and popped locally", MM + "model.py"), ("Fortran module state", "qdipole/apexsh.f90")],
    ["repeated identical calls"])

add("P26", "Apex library conversions are those of the expansion loaded last, both directions",
    "After LOADAPXSH the quasi-dipole and modified apex coordinates and all base vectors of APXG2Q and APXG2ALL are those of the loaded expansion at the loaded epoch: the base vectors are the gradients of the coordinates, d and e are reciprocal, D and F are the sizes of the cross products, undefined or unrequested values are marked missing. APXQ2G inverts the conversion within the requested precision and reports the true error, or evaluates the inverse expansion if no precision is requested. No value depends on conversions, loads, failed loads or generations of files made before, and loading of a missing or malformed file is reported and crashes nothing.",
    ["inputs", "histories"],
    "all positions, heights, reference heights and epochs; all sequences of loads (shipped, generated and malformed files), conversions and inversions, with repeated positions and heights",
    "the library keeps coefficients of the last file, epoch and height, separately for both directions, in module variables; the tests evaluate the forward conversion in one order only and never the inverse and modified apex coordinates",
    ["qdipole/apexsh.f90", "qdipole/makeapexsh.f90"],
    [("coefficients of the height kept from the last call", "qdipole/apexsh.f90:apxg2q, apxq2g"), ("loading", "qdipole/apexsh.f90:loadapxsh, allocatearrays"),
     ("base vectors of the modified apex coordinates", "qdipole/apexsh.f90:apxg2all"), ("iterative inversion", "qdipole/apexsh.f90:apxq2g")],
    ["libqdipole: LOADAPXSH, APXG2Q, APXG2ALL, APXQ2G, APXSHERROR"])

add("P27", "Apex library field is the IGRF; apex coordinates and files follow from it",
    "The field, potential and dipole of the library equal those of the IGRF at the date selected last, whatever dates and evaluations came before. Its geodetic conversions are exact and mutually inverse up to single precision everywhere. The apex radius, latitude and longitude are those of the highest point of the field line through the position. A generated coefficient file contains the rotation to the dipole and the weighted least squares fit of both transformations on the documented grid, and the shipped files give the quasi-dipole coordinates of the IGRF within their resolution.",
    ["inputs", "histories"],
    "all dates from 1900, positions from the core to many radii, sequences of date selections and evaluations of the three kinds, dimensions and epochs of generated files",
    "tests see the field only through the dipole pole and never trace a line or generate a file; the copied coefficient tables and the flags of changed coefficients are only checked over dates and orders of calls",
    ["qdipole/apex.f90", "qdipole/makeapexsh.f90", "qdipole/apexsh_1980-2030.txt"],
    [("IGRF tables and interpolation", "qdipole/apex.f90:COFRM"), ("field and potential with retained coefficients", "qdipole/apex.f90:FELDG"), ("dipole", "qdipole/apex.f90:DYPOL"),
     ("geodetic conversions", "qdipole/apex.f90:CONVRT, GD2CART"), ("tracing to the apex", "qdipole/apex.f90:LINAPX, ITRACE, FNDAPX"), ("fit", "qdipole/makeapexsh.f90:makeapxsh")],
    ["libqdipole: COFRM, FELDG, DYPOL, CONVRT, GD2CART, APEX, MAKEAPXSH"])

add("P28", "Apex library calendar, Sun and magnetic local time are exact and invertible",
    "Conversions between civil dates and days since 2000 are exact and mutually inverse for the Julian and the Gregorian calendar, with every field in its range, also just before and after midnight. The subsolar point follows the Sun within the documented accuracy and does not depend on how the instant is split to days, hours, minutes and seconds. The magnetic local time is the hour angle of the dipole longitude from that of the subsolar point, within its range, and the conversion back to the longitude inverts it.",
    ["inputs"],
    "all dates from 4713 BC to 9999, days with fractions adjacent to midnight, years 1601-2100 with unnormalised fields, all positions of the Sun and the pole",
    "tests evaluate the wrappers for a table of recent times; other calendars, midnights and unnormalised fields are not reached",
    ["qdipole/apex.f90", "qdipole/eval_mlt.f90", "qdipole/eval_subsol.f90"],
    [("calendar", "qdipole/apex.f90:TMJD, TJUDA, IDBL, DBL"), ("Sun", "qdipole/apex.f90:SUBSOL"), ("magnetic local time", "qdipole/apex.f90:MAGLOCTM, MLT2ALON, SOLGMLON")],
    ["libqdipole: TMJD, TJUDA, SUBSOL, SOLGMLON, MAGLOCTM, MLT2ALON"])

add("P29", "Calls made from several threads return what each of them returns alone",
    "Threads which evaluate, trace and load models, read coefficients and call the low level functions at the same time - on different objects or sharing the same models and coefficient sets - get bit by bit the results which each call gives when it is made alone, whatever the order in which the threads are stopped and continued, and no thread changes the arguments or terminates the process.",
    ["schedules"],
    "all interleavings of 2-4 threads at the level of lines and instructions of the Python code, and free running threads",
    "tests are single threaded; a value parked in a shared object or in the Fortran library between two steps of a call is harmless unless another thread runs in between",
    [MM + "model.py", MM + "model_mio.py", MM + "model_composed.py", MM + "coefficients.py", MM + "field_lines.py", PK + "pyqd_eval_qdlatlon.h", "qdipole/apexsh.f90"],
    [("state kept in local variables and arguments only", MM + "model.py, coefficients.py"), ("Fortran module state protected by the interpreter lock", PK + "pyqd_eval_qdlatlon.h")],
    ["calls of the package made in several threads"])

add("P30", "Shipped models, names and apex files describe one and the same Earth",
    "The models shipped with the package, loaded by their names through the public loaders and evaluated in any coordinate system, describe the same magnetic field: snapshots which are definitive are the same in all releases of the IGRF; the models of the core field agree within their accuracy over all of their common validities, predictions continue the models they follow and names of the latest models stand for the newest release; the lithospheric models agree in the degrees they resolve. The quasi-dipole coordinates by the shipped apex files follow from this field: their latitude gives the apex height and their longitude is constant along traced field lines and along the direction of the evaluated field, and their hemisphere is that of the inclination.",
    ["inputs"],
    "all times of the common validities, all positions at and above the surface, all pairs of shipped models",
    "tests compare every shipped model with its own stored results; results of different models, loaders and libraries are never compared with each other",
    [PK + "data/__init__.py", MM + "loader_shc.py", MM + "loader_igrf.py", MM + "loader_wmm.py", MM + "model.py", MM + "field_lines.py", PK + "quasi_dipole_coordinates.py"],
    [("names of the shipped files", PK + "data/__init__.py"), ("loaders", MM + "loader_shc.py, loader_igrf.py, loader_wmm.py"), ("field lines", MM + "field_lines.py:trace_field_line"), ("quasi-dipole coordinates", PK + "quasi_dipole_coordinates.py")],
    ["eoxmagmod.data", "load_model_shc, load_model_shc_combined, load_model_igrf, load_model_wmm", "SphericalHarmomicGeomagneticModel.eval", "trace_field_line", "eval_qdlatlon"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
