"""Writes properties.jsonl (kept as a program so that the text stays reviewable)."""
import json, os
P = "starwinds_magnetogram/"
props = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    props.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=[P + f for f in files],
                                   state=[dict(name=a, meaning=b, where=P + c) for a, b, c in state],
                                   mechanism=[dict(name=a, where=P + b) for a, b in mech],
                                   observe_at=observe, hook_needed=None)))

prop("C01", "Coefficient sets behave as a map from (degree, order) to a row of values",
     "After any sequence of operations (set, append, add, subtract, scale, multiply, divide, power, truncate, copy, "
     "stack, split, zero, convert to and from arrays, compare) a coefficient set reports exactly the entries, size, "
     "highest degree and lowest order that the same operations give on a plain map from (degree, order) to a row of "
     "values, where a missing entry reads as the set's default value (zero for sets that are combined). An operation that is refused (duplicate append, "
     "order beyond the degree, wrong row width, mismatched array lengths) changes nothing. Results never share storage with "
     "their operands, so changing one later never shows in the other.",
     ["inputs", "histories"],
     "every sequence of operations on sets of any size, any row width, real or complex values, any degrees and orders "
     "including negative ones, any scalar",
     "tests run a few fixed sequences on one or two sets and mostly compare printed or close values; the property is "
     "over all operation histories and about aliasing and atomicity, which no test observes",
     ["coefficients.py"],
     [("Coefficients.set/append/get/has/as_arrays/contents", "coefficients.py"),
      ("add, multiply, scale, truncated, copy, hstack, hsplit, from_arrays, isclose, allclose", "coefficients.py")],
     ["public methods and operators of Coefficients", "module functions of coefficients"],
     [("coefficients", "dict (l, m) -> row", "coefficients.py"),
      ("default value, degree_max, order_min", "summary kept beside the dict", "coefficients.py")])

prop("C02", "Writing then reading a magnetogram file returns the same coefficients",
     "Writing a coefficient set to a file and reading the file back gives, for every degree up to the requested maximum "
     "and every non-negative order, the same complex rows rounded to the six decimals of the format, with unset entries "
     "read as zero and degrees above the stored maximum padded with zeros. When the SWMF header is requested, its data-line "
     "count is the number of (degree, order) lines of one coefficient set, its maximum degree is the requested one, "
     "and the header never affects the coefficients read back.",
     ["inputs", "configurations"],
     "every coefficient set (one to several values per entry, sparse or full, any magnitude), every maximum degree below, at "
     "or above the stored degree, every lowest order, header on or off",
     "the tests write two fixed files and compare them loosely; the header's line count is never read back, nor padding, "
     "sparse sets, or extreme magnitudes",
     ["reader_writer.py", "coefficients.py"],
     [("write_magnetogram_file, create_swmf_header, read_magnetogram_file", "reader_writer.py")],
     ["file contents", "read_magnetogram_file result"])

prop("C03", "The file reader accepts exactly the data lines and splits sets at repeats",
     "Reading any text file takes exactly the lines whose first four tokens are an integer degree, an integer order and "
     "two numbers, in file order, ignoring all other lines wherever they occur; a line that repeats a (degree, order) "
     "already present in the current set starts the next set. The result has one column per set, each entry holding "
     "that set's value and zero where that set has no such line. A data line whose order exceeds its degree in magnitude is "
     "never silently stored.",
     ["inputs", "histories"],
     "every sequence of lines, including headers, comments, blank lines, short lines, extra columns, negative orders, CRLF "
     "endings and files cut short at any line",
     "tests read only a handful of well-formed files; the parser is a state machine over line sequences and the tests "
     "sample almost none of its paths",
     ["reader_writer.py", "coefficients.py"],
     [("read_magnetogram_file line loop", "reader_writer.py"), ("hstack", "coefficients.py")],
     ["read_magnetogram_file result"],
     [("coefficient_sets", "list of sets read so far", "reader_writer.py")])

prop("C04", "File conversion scales every coefficient exactly, for every option",
     "The conversion command, for every combination of direction, degree limit, header and output-name options, writes a "
     "file whose entries are the input's coefficients scaled by sqrt((2l+1)/(4 pi (2-[m=0]))) (-1)^m going from ZDI to PFSS "
     "(radial coefficients only), by its inverse going back (with the tangential coefficients of the potential field and zero toroidal ones), "
     "or unchanged when no conversion is requested. Degrees are padded or cut to the requested maximum, and the SWMF header "
     "is present exactly when it applies.  Without an output name it writes <name>_wso or <name>_zdi with the input's extension "
     "in the current folder; it refuses unsuitable input with an error and writes nothing.",
     ["inputs", "configurations"],
     "every command-line combination and every readable input file (one or three columns, sparse, unsorted, any degree)",
     "tests check only the exit status of six command lines; no test reads the produced file",
     ["bin/convert_magnetogram.py", "converter.py", "reader_writer.py"],
     [("main, convert_zdi_to_pfss, convert_pfss_to_zdi, no_conversion", "bin/convert_magnetogram.py"),
      ("forward_conversion_factor", "converter.py")],
     ["output file", "exit of the command"])

prop("C05", "Conversion never damages its input, even when input or output fails",
     "Whatever happens during a file conversion, the input file keeps its contents, even when the output name is another "
     "name for the same file; an existing file is never overwritten under a name the user did not give. When any file "
     "operation fails, the conversion ends with an error and never reports success with an incomplete output; a failure "
     "before output begins leaves an existing output file as it was.",
     ["fault_sequences", "crash_points", "configurations"],
     "every open, read, write and close of a conversion failing at every position, for every direction and every relation "
     "between input and output name (same, relative spelling, symbolic link, hard link, existing other file)",
     "no test injects an I/O failure or uses an aliased output name",
     ["bin/convert_magnetogram.py", "reader_writer.py"],
     [("output name check", "bin/convert_magnetogram.py"), ("read fully before opening the output", "reader_writer.py")],
     ["bytes of input and output files", "exception or normal return"])

prop("C06", "ZDI field components equal their spherical-harmonic definition",
     "At every point of the sphere, a ZDI magnetogram's radial field is Re sum alpha Y, its poloidal tangential field is "
     "-Re sum beta grad(Y)/(l+1), and its toroidal field has polar component Re sum gamma (dY/dphi)/sin(theta)/(l+1) "
     "and azimuthal component -Re sum gamma (dY/dtheta)/(l+1), with orthonormal complex Y (Condon-Shortley phase), "
     "for every degree, every order (negative ones included) and every combination of coefficients in any order. "
     "The values do not depend on the shape or layout of the arrays of points.",
     ["inputs"],
     "every set of coefficients, every point, every array shape",
     "tests compare a few fixed magnetograms at a few grids, mostly against the code's own alternatives; coefficients and "
     "points are sampled",
     ["zdi_magnetogram.py", "associated_legendre.py"],
     [("get_radial/polar/azimuthal_(poloidal|toroidal)_field", "zdi_magnetogram.py"), ("calculate_lpmn", "associated_legendre.py"),
      ("get_c_lm", "zdi_magnetogram.py")],
     ["field getters of a ZDI magnetogram", "from_coefficients"])

prop("C07", "Derived ZDI magnetograms and vector fields are consistent with the whole",
     "Through any chain of restricting by degree or order, taking the dipole, the poloidal or the toroidal part, or copying, "
     "the result's field is exactly the field of the selected coefficients, the parts of a partition sum to the whole, and "
     "the original is never changed by deriving from it or by later changing the derived one. On every such magnetogram the total components are the sums of "
     "their poloidal and toroidal parts, the strength is the length of the vector, and the full, poloidal and toroidal "
     "cartesian fields are the spherical components turned into x, y, z.",
     ["inputs", "histories"],
     "every magnetogram, every chain of derivations, every degree and order range",
     "tests derive once from a fixed magnetogram; some vector forms (poloidal, toroidal cartesian) are never called",
     ["zdi_magnetogram.py", "coordinate_transforms.py"],
     [("as_restricted, as_dipole, as_poloidal, as_toroidal, copy", "zdi_magnetogram.py"),
      ("get_cartesian_*_field, get_field_strength, get_all", "zdi_magnetogram.py")],
     ["field getters of derived magnetograms", "coefficient arrays of the original"])

prop("C08", "Reported magnetic energies equal the surface integral of the squared field",
     "For every magnetogram with non-negative orders, the reported radial, remaining poloidal and toroidal energy of each "
     "coefficient equals the integral over the sphere of the square of the field that coefficient generates, and the total "
     "energy equals the integral of the squared field strength. Every reported fraction (radial, poloidal, toroidal, by "
     "degree, axisymmetric) is the ratio of the corresponding sums, whether or not particular coefficients are present, and the "
     "energy matrix holds the radial, poloidal and toroidal energy of (l, m) at row l and at the column m places right of "
     "the middle one.",
     ["inputs"],
     "every set of coefficients with any subset of degrees and orders present",
     "tests check one identity on two full magnetograms; sparse sets and the matrix layout are not checked",
     ["zdi_magnetogram.py"],
     [("energy, energy_matrix, _energy_helper", "zdi_magnetogram.py")],
     ["energy() return value and dest dictionary", "energy_matrix()"])

prop("C09", "The PFSS field is the potential field of its coefficients",
     "At every point between the star and the source surface the evaluated PFSS field is the gradient field of the potential "
     "with the given (Schmidt-normalised) coefficients, for any star and source-surface radius: its radial part at "
     "the star equals the harmonic series of the coefficients and its tangential part vanishes at the source surface. Beyond the source surface it continues with the "
     "source surface's value falling as 1/r^2 in the same direction, and inside the star it is zero.",
     ["inputs", "configurations"],
     "every coefficient set with non-negative orders, every radius, angle and pair of radii",
     "tests check sampled dipoles and quadrupoles, often with wide tolerances (finite-difference derivative); no test covers all degrees "
     "and regions",
     ["pfss_magnetogram.py", "associated_legendre.py"],
     [("evaluate_spherical, r_l, phi_lm, calculate_all_theta", "pfss_magnetogram.py")],
     ["evaluate_spherical"])

prop("C10", "PFSS evaluation in cartesian and spherical form agree for any layout",
     "Evaluating a PFSS field at cartesian points gives the same radial, polar and azimuthal components as evaluating it at "
     "the corresponding spherical points, and x, y, z components that are those same components turned into cartesian axes. "
     "The value at a point does not depend on which other points are evaluated with it or on the shape of the arrays, and a "
     "single radius may stand for all points.",
     ["inputs", "configurations"],
     "every coefficient set, every point (all octants, inside, between and beyond the radii), every array shape, every partition of the points into calls",
     "tests use one random set of points and one shape",
     ["pfss_magnetogram.py", "coordinate_transforms.py"],
     [("evaluate_cartesian, evaluate_spherical, normal_plane", "pfss_magnetogram.py"),
      ("spherical_to_rectangular_transformation_matrix", "coordinate_transforms.py")],
     ["evaluate_cartesian", "evaluate_spherical"])

prop("C11", "Converting between ZDI and PFSS form preserves the field",
     "A PFSS magnetogram made from a ZDI magnetogram has, at the stellar surface, the ZDI magnetogram's radial field with the "
     "azimuth direction reversed, and a ZDI magnetogram made from a PFSS one has the whole PFSS surface field of the default source surface (azimuthal "
     "component reversed in sign with the azimuth direction) and no toroidal part. Converting there and back returns the original "
     "radial coefficients, entry by entry, without adding or dropping entries.",
     ["inputs"],
     "every coefficient set with any subset of degrees and orders",
     "tests compare a few coefficients and fields of fixed magnetograms with loose tolerances",
     ["converter.py", "pfss_magnetogram.py", "zdi_magnetogram.py"],
     [("convert_zdi_to_pfss, convert_pfss_to_zdi, forward_conversion_factor", "converter.py")],
     ["converted coefficients", "fields of both forms"])

prop("C12", "Folding negative orders onto positive ones leaves the field unchanged",
     "Folding a magnetogram's negative orders onto its positive ones gives coefficients with non-negative orders only whose "
     "field equals the original's at every point. Folding a folded magnetogram changes nothing, and a "
     "magnetogram without negative orders keeps its coefficients.",
     ["inputs"],
     "every set of coefficients over any orders, used as radial, poloidal or toroidal coefficients",
     "tests fold fixed magnetograms once and compare the radial field only",
     ["converter.py"],
     [("map_to_positive_orders, collect_cosines", "converter.py")],
     ["folded coefficients", "fields before and after"])

prop("C13", "Rotating a magnetogram rotates its field rigidly",
     "The field of a magnetogram rotated by any rotation is the original field carried rigidly over the sphere by that rotation, "
     "for every coefficient column. Successive rotations act as their product, rotating back restores the coefficients, "
     "degrees never mix and the summed squared magnitude within each degree and column is unchanged; Euler angles in degrees mean the same "
     "rotation as the quaternion built from them.",
     ["inputs", "histories"],
     "every rotation and sequence of rotations, every coefficient set",
     "tests compare extrema for a few angles on fixed magnetograms",
     ["rotate.py", "coefficients.py"],
     [("rotate_magnetogram, rotate_magnetogram_euler_zyz_deg", "rotate.py")],
     ["rotated coefficients and their fields"])

prop("C14", "Gridded field maps are converted to the coefficients that made them",
     "Converting a gridded map of radial, polar and azimuthal field that covers the sphere returns the ZDI coefficients "
     "that generated it, up to the discretisation error of the grid, with no leakage between degrees, orders, real and imaginary parts, or "
     "the three coefficient kinds. The conversion is linear in the maps.",
     ["inputs"],
     "every set of coefficients up to the requested degree, every sufficiently fine even grid in increasing or decreasing order, any explicit or default cell size",
     "tests compare a few coefficients with tolerances of about one per cent on fixed magnetograms",
     ["converter.py", "associated_legendre.py", "zdi_magnetogram.py"],
     [("convert_latlon_to_zdi, convert_latlon_to_zdi_coeffs, get_zdi_coeffs", "converter.py")],
     ["returned coefficients"])

prop("C15", "Images and harmonic coefficients convert back and forth faithfully",
     "Turning harmonic coefficients into an image gives the orthonormal spherical-harmonic sum at each cell centre, and turning an image of a "
     "band-limited function into coefficients returns its harmonics up to discretisation error with no leakage. The "
     "outcome of a conversion never depends on which conversions, on which grids, were done before, nor on what was done to "
     "arrays returned earlier.",
     ["inputs", "histories"],
     "every coefficient set, every evenly spaced grid, every sequence of conversions",
     "tests do one round trip each in a fresh state with one grid; the hidden cache is never exercised across grids",
     ["image_converter.py", "geometry.py"],
     [("from_image, to_image, spherical_harmonic cache", "image_converter.py")],
     ["from_image, to_image, spherical_harmonic results"],
     [("cache of harmonics", "process-wide, keyed by order, degree and grid", "image_converter.py")])

prop("C16", "Geometry facets tile the sphere",
     "For any corner grid, each facet's area is the exact area of its patch of the unit sphere, so that areas add up to the patch covered (4 pi for "
     "the whole sphere); facet centres are the midpoints of their corners and unit normals are unit vectors pointing from the origin to them. The projected visible "
     "fraction of a facet is the cosine of its angle to the viewing direction, zero when it faces away, whatever the length "
     "of the direction vector.",
     ["inputs", "configurations"],
     "every grid of corners in increasing or decreasing order (default, by counts, by explicit arrays, uneven, partial) and every direction vector of ordinary length",
     "tests check the total area on two grids",
     ["geometry.py", "coordinate_transforms.py"],
     [("ZdiGeometry.areas, centers, unit_normals, projected_visible_area_fraction", "geometry.py")],
     ["methods of the geometry object"])

prop("C17", "The longitudinal field curve is the visible-disc average for every observer",
     "For each observer direction the longitudinal field is the field component towards the observer averaged over the "
     "visible facets weighted by projected area. It is linear in the magnetogram, turns with the star (rotating the "
     "observer by a whole number of facets equals rotating the magnetogram back), is one value per "
     "observer azimuth in the order given, and does not depend on the other azimuths or (up to its precision) on the number type they are given in.",
     ["inputs", "configurations"],
     "every magnetogram, geometry, observer inclination and list of azimuths",
     "tests check one analytic dipole case and plots",
     ["longitudinal_field.py", "geometry.py", "zdi_magnetogram.py"],
     [("get_longitudinal_field_curve", "longitudinal_field.py")],
     ["returned curve", "curve drawn by the plotting function"])

prop("C18", "The Parker wind solution satisfies its equation everywhere",
     "At every radius from the stellar surface outwards the Parker speed is a finite solution of the isothermal wind equation, subsonic inside "
     "and supersonic outside the sonic radius, equal to the sound speed at it, and increasing with radius; below the surface the surface value is used. Density "
     "times speed times radius squared is the same at every radius, the density at the surface is the base density, and the reported total mass flux is 4 pi times it.",
     ["inputs", "configurations"],
     "every temperature, base density, stellar mass and radius whose sonic radius is at most 280 stellar radii (inside the star included), every non-empty array of radii",
     "tests check a few radii on one star and never the sonic point itself",
     ["parker_solution.py"],
     [("find_parker_analytic, speed, density, total_mass_flux", "parker_solution.py")],
     ["speed, density, total_mass_flux, radius_sonic, speed_sonic"])

prop("C19", "Calculations change nothing but their result and do not depend on history",
     "No evaluation, conversion, derivation, energy, rotation, geometry, wind or file-writing call changes the arrays, coefficient sets, "
     "magnetograms or geometries passed to it. Any such call returns the same result whether it is made first, repeated, "
     "or made after any other calls on the same or other objects.",
     ["histories"],
     "every sequence of calls over shared objects",
     "tests call each function in isolation and never compare inputs before and after",
     ["coefficients.py", "converter.py", "zdi_magnetogram.py", "pfss_magnetogram.py", "parker_solution.py", "geometry.py",
      "longitudinal_field.py", "image_converter.py", "rotate.py", "reader_writer.py", "coordinate_transforms.py"],
     [("copies taken by operations; caches keyed by their full input", "image_converter.py")],
     ["inputs before and after each call", "results of each call in different histories"])

prop("C20", "Coordinate transforms are inverse to each other and preserve vectors",
     "Converting points from cartesian to spherical coordinates and back returns them, with the polar angle in [0, pi], the "
     "azimuth in [-pi, pi] and the radius equal to the distance from the origin, for points in every octant, on the axes and at the origin. The matrices that turn "
     "spherical vector components into cartesian ones and back are rotations, inverse to each other, and map each spherical unit vector to its "
     "cartesian direction.",
     ["inputs"],
     "every point and every direction of ordinary size (1e-150 to 1e150), every array shape the functions accept",
     "tests use a random sample of points",
     ["coordinate_transforms.py"],
     [("spherical_coordinates_from_rectangular and inverse, transformation matrices", "coordinate_transforms.py")],
     ["function results"])

prop("C21", "Magnetogram plots show the evaluated field, correctly labelled",
     "Every magnetogram plot, from the command line or the library, draws in each cell the value of the quantity it is labelled as, at that "
     "cell's azimuth and polar angle (or position in the slice, or degree and order), for ZDI and PFSS input alike, with marked and printed extrema at the "
     "largest and smallest drawn values and colours that agree with the colour bar beside them; energy fractions span their own share of the circle and "
     "streamlines run along the drawn field, as thick as the legend says; contours run where the drawn values have their level, solid ones at "
     "zero and the others at the marks of the colour bar. The command saves the requested figure for every plot type and every readable magnetogram "
     "that has a field, and ends with an error for an unknown plot or magnetogram type.",
     ["inputs", "configurations"],
     "every plot type and magnetogram type, strong, weak and sparse magnetograms, slices normal to any axis",
     "tests only check that the commands exit normally on two files; nothing looks at what is drawn",
     ["bin/plot_magnetogram.py", "plot_zdi.py", "plots.py", "plot_pfss.py"],
     [("main", "bin/plot_magnetogram.py"), ("plot_zdi_field, plot_zdi_components, plot_energy_*", "plot_zdi.py"),
      ("plot_components, plot_slice, plot_streamtraces", "plot_pfss.py"),
      ("plot_equirectangular, plot_magnetic_field, add_contours, add_extrema", "plots.py")],
     ["artists of the figures produced", "saved file", "exit of the command"])

prop("C22", "LSD and spectrum plots show every sample once, in the right panel",
     "The LSD plot command draws, for any choice and order of the Stokes parameters, one panel per parameter in the order asked, each showing that "
     "parameter's column and error bars of every data row after the skipped header rows; an unknown parameter ends with an error. A stack plot draws "
     "the Stokes V profile and error bars of each data set, under its own name, in its own panel, in order, within the limits asked for, and the "
     "spectrum plot draws every sample of each column once, in that column's panel. Splitting a spectrum into wavelength "
     "intervals assigns every sample to exactly one interval, broken exactly where neighbouring wavelengths differ by more "
     "than the threshold.",
     ["inputs", "configurations"],
     "every sequence of one to three parameters, every header length, every data table, every pattern of wavelength gaps",
     "tests plot one or two fixed files and do not look at the drawn data; interval boundaries are not checked",
     ["plot_lsd.py", "bin/plot_lsd.py"],
     [("plot_lsd_profile, wl_intervals, plot_spectrum, plot_lsd_stack", "plot_lsd.py"), ("main", "bin/plot_lsd.py")],
     ["artists of the figures produced", "interval list"])

prop("C23", "Numerical field descriptions are the statistics of the described field",
     "The numerical description of a magnetogram on a full-sphere geometry reports, for each component, each poloidal and toroidal part of it and the "
     "field strength, the largest absolute value over the facets and the area-weighted mean, root mean square and standard deviation of "
     "the absolute value. The root mean square squared is the sum of the squares of the mean and the deviation, and every "
     "quantity is reported for every magnetogram.",
     ["inputs", "configurations"],
     "every magnetogram and every full-sphere geometry",
     "a single test runs the function and checks nothing but that it ends",
     ["geometry.py", "zdi_magnetogram.py"],
     [("numerical_description", "geometry.py")],
     ["returned dictionary"])

prop("C24", "Number formatting and colour-bar ticks denote the values they stand for",
     "Major tick values are zero and plus and minus the stated powers of ten, in increasing order, each with the label naming that value; "
     "minor ticks are the whole multiples of powers of ten between them; on a colour bar each tick is placed where its value lies. "
     "Shifting a tick label's exponent changes only the exponent, by exactly the shift, and the LaTeX form of a number reads "
     "back as that number to the digits shown.",
     ["inputs"],
     "every exponent range and step, every label of the form this module generates, every number",
     "no test covers these functions' results",
     ["colorbar_manual_tickmarks.py", "plots.py"],
     [("generate_major, generate_minor, fully_manual_tickmarks, tesla_to_gauss", "colorbar_manual_tickmarks.py"),
      ("latex_float", "plots.py")],
     ["function results, tick positions"])

prop("C25", "Generated magnetograms and point sets have their stated form",
     "A noise magnetogram contains exactly the degrees asked for with every non-negative order, each coefficient being the "
     "drawn complex number divided by (2l+1) and by l to the given slope. A Fibonacci point set has the requested number of unit "
     "vectors at equal steps of height from below -1 + 2/n to above 1 - 2/n, consecutive ones a golden angle apart in longitude (except at the one step where the "
     "sequence of longitudes starts over), randomised or not, and no two of them coincide.",
     ["inputs", "configurations"],
     "every degree range, slope and random source; every number of points",
     "tests plot one noise magnetogram; the point set is not tested",
     ["coefficients.py", "fibonacci_sphere.py"],
     [("noise", "coefficients.py"), ("fibonacci_sphere", "fibonacci_sphere.py")],
     ["returned objects"])

prop("C26", "The basis functions and normalisations equal their definitions",
     "For every degree and order, negative orders included where they are defined, the Legendre functions and their polar derivatives, the "
     "normalisation of the ZDI harmonics (by either method), and the radial, polar and azimuthal functions of the PFSS potential with their "
     "derivatives equal their closed forms at every point, the poles included, to rounding (the stand-alone polar function's derivative: to its "
     "finite step). The value for one degree and order does not depend on which others are asked for at the same time, "
     "nor on the layout of the arrays. A plane normal to an axis has that coordinate zero and the other two in order.",
     ["inputs", "configurations"],
     "every degree, order, polar angle, radius and pair of radii, and every layout of the arrays",
     "tests compare some degrees with the code's own alternatives at per-cent tolerances, and the methods are never compared for negative orders",
     ["associated_legendre.py", "zdi_magnetogram.py", "pfss_magnetogram.py"],
     [("calculate_lpmn", "associated_legendre.py"), ("get_c_lm", "zdi_magnetogram.py"), ("theta_lm, calculate_all_theta, r_l, phi_lm, normal_plane", "pfss_magnetogram.py")],
     ["returned arrays"])

prop("C27", "Pipelines of operations carry the field with them",
     "A magnetogram that is taken through any sequence of the package's operations (rotating, folding to positive orders, keeping the radial part, "
     "converting between ZDI and PFSS form, writing to and reading from a file, converting a file by the command, scaling, truncating, adding, restricting, keeping the "
     "poloidal or toroidal part) describes, after every step, the field which the sequence of these operations on the original field defines: its coefficients, "
     "surface fields, PFSS fields, image, energy and longitudinal field all agree with it, and none of the magnetograms made on the way changes. The only "
     "loss is the rounding of a file to its digits.",
     ["histories", "inputs"],
     "every sequence of the operations, in any order, from every kind of magnetogram",
     "tests exercise one operation at a time or one fixed pipeline; the number and order of operations is unbounded",
     ["coefficients.py", "converter.py", "rotate.py", "reader_writer.py", "zdi_magnetogram.py", "pfss_magnetogram.py", "image_converter.py", "longitudinal_field.py", "bin/convert_magnetogram.py"],
     [("rotate_magnetogram", "rotate.py"), ("convert_zdi_to_pfss, convert_pfss_to_zdi, map_to_positive_orders", "converter.py"),
      ("read_magnetogram_file, write_magnetogram_file", "reader_writer.py"), ("Coefficients", "coefficients.py"),
      ("ZdiMagnetogram", "zdi_magnetogram.py"), ("main", "bin/convert_magnetogram.py")],
     ["coefficients, fields, energies and curves after every operation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props), "properties")
