"""Writes /verif/properties.jsonl (kept as a script so the statements stay in one place)."""
import json
P = "starwinds_magnetogram/"
C, CV, RW, Z, PF, G = P + "coefficients.py", P + "converter.py", P + "reader_writer.py", P + "zdi_magnetogram.py", P + "pfss_magnetogram.py", P + "geometry.py"
CT, AL, ROT, IM, LF, PK = P + "coordinate_transforms.py", P + "associated_legendre.py", P + "rotate.py", P + "image_converter.py", P + "longitudinal_field.py", P + "parker_solution.py"
FS, PL, BIN = P + "fibonacci_sphere.py", P + "plot_lsd.py", P + "bin/convert_magnetogram.py"
L = []


def prop(id, title, statement, over, qtext, why, files, mech):
    L.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


prop("S01", "A coefficient set behaves as a map from (degree, order) to values",
     "After any sequence of writes, looking up a degree and order gives the last value written there, every other pair is untouched and a pair never written gives the default; the set owns its values, so later changes to a caller's array do not alter it. Appending to a pair already present, an order outside -l..l and a value of another shape are each refused and leave the set unchanged. The reported size, highest degree and lowest order always match the stored pairs.",
     ["histories", "inputs"], "every history of writes with integer degrees and orders, every value shape and default",
     "The tests write a handful of pairs in one order; the guarantee quantifies over all histories, keys and refused writes.",
     [C], [("set/append/get/has", C + ":Coefficients"), ("bookkeeping of degree and order bounds", C + ":Coefficients.set")])
prop("S02", "Listing and array export are complete, ordered and free of extras",
     "Listing a coefficient set yields each stored pair exactly once in increasing (degree, order) order with its value. Exporting to arrays yields exactly the requested degree and order ranges in that order, with default values for unset pairs when they are asked for and without unset pairs otherwise. Neither changes the set, and the exported arrays are independent of it.",
     ["inputs"], "every set, every non-empty requested range of degrees and orders, both padding modes",
     "Ranges, sparsity and padding combine without bound; tests use one dense example.",
     [C], [("contents", C + ":Coefficients.contents"), ("as_arrays", C + ":Coefficients.as_arrays")])
prop("S03", "Coefficient arithmetic acts pair by pair and never alters its operands",
     "Sum, difference and product of two sets hold, for every pair stored in either one, the sum, difference or product of the two values with missing values counted as zero, and nothing else; multiplication, division and powers by a scalar, scaling by a function of degree and order, copies, zero-filled copies and truncation likewise act on each stored pair alone. Comparison reports closeness exactly when every pair stored in either set is close, and sets of different widths are never close. Operands stay as they were and results share no storage with them.",
     ["inputs"], "all pairs of sets (overlapping, disjoint, empty), all value widths, scalars and scale functions",
     "The outcome depends on which pairs each operand stores; tests compare a few dense sets.",
     [C], [("add/multiply/power", C + ":add,multiply"), ("scale/truncated/copy", C + ":scale,truncated,copy"), ("allclose", C + ":allclose,isclose")])
prop("S04", "Stacking and splitting, array import and export are mutually inverse",
     "Stacking sets gives, for every pair stored in any of them, the concatenation of their values in order with zeros where a set lacks the pair; splitting returns the components, so splitting a stack of single-component sets gives them back (zero-padded to the union of pairs) and stacking the parts restores the set. Building a set from arrays of degrees, orders and one- or multi-component values stores exactly those values, refuses repeated pairs and inverts the export to arrays.",
     ["inputs"], "any number of sets, any pairs and widths; any arrays of degrees, orders and values",
     "Tests stack one or two fixed sets and compare few values; sparsity patterns are unbounded.",
     [C], [("hstack", C + ":hstack"), ("hsplit", C + ":hsplit"), ("from_arrays", C + ":from_arrays")])
prop("S05", "Reading a magnetogram file yields exactly its coefficient rows, block by block",
     "A line whose first four whitespace-separated fields are two integers (a valid degree and order) and two numbers sets that coefficient to real + i imaginary; every other line, such as headers, is ignored wherever it stands. A row repeating a pair already present in the current block starts the next block. Component k of a pair is its value in block k, zero when that block lacks it, and there are as many components as blocks.",
     ["inputs"], "every text file whose coefficient rows have valid degrees and orders, any number of blocks, any mix of ignored lines",
     "File layouts are unbounded; the tests check that three sample files load.",
     [RW, C], [("line loop", RW + ":read_magnetogram_file"), ("hstack", C + ":hstack")])
prop("S06", "Writing a magnetogram and reading it back preserves it to the printed precision",
     "Reading a file written from any coefficient set with non-negative orders gives the same number of components and, for every degree up to the requested maximum (by default the highest stored) and order 0..l, the stored value to about seven significant digits, or zero where nothing was stored, with or without the SWMF header. Degrees above the requested maximum are dropped, lower orders are included exactly when requested, and an existing file is replaced.",
     ["inputs"], "all sets, component counts, maximum degrees, minimum orders, magnitudes",
     "Tests only check that a written file can be read; no value, padding or component is compared.",
     [RW, C], [("row format", RW + ":write_magnetogram_file"), ("parser", RW + ":read_magnetogram_file"), ("padding", C + ":Coefficients.as_arrays")])
prop("S07", "The SWMF header states what the file contains",
     "A file written with the SWMF header starts with its five header lines, in which the number of data lines equals the number of rows actually written per component and the maximum degree equals the highest degree written. The rows that follow list every degree up to that maximum and every order 0..l in increasing order.",
     ["inputs"], "all sets and maximum degrees",
     "No test looks at the header; its numbers must follow the data for every degree and padding.",
     [RW], [("header", RW + ":create_swmf_header"), ("line count", RW + ":write_magnetogram_file")])
prop("S08", "Converting a ZDI magnetogram to PFSS form preserves the radial surface field",
     "The radial field of the converted coefficients at the stellar surface equals the radial field of the ZDI coefficients at every point, with azimuth measured in the opposite sense. Each coefficient is rescaled by a factor depending only on its degree and order, so exactly the same pairs are stored, and the input is not altered.",
     ["inputs"], "every coefficient set with non-negative orders and every surface point away from the poles",
     "One test compares one coefficient at a time for low degrees; the equality holds for all sets and all points.",
     [CV, PF, Z], [("conversion factor", CV + ":forward_conversion_factor"), ("PFSS radial series", PF + ":evaluate_spherical"), ("ZDI radial series", Z + ":ZdiMagnetogram.get_radial_poloidal_field")])
prop("S09", "Converting PFSS to ZDI inverts the conversion and keeps the surface field",
     "Converting PFSS coefficients to ZDI and the radial part back returns the original coefficients, and the other way round. The resulting ZDI magnetogram has no toroidal part and reproduces all three components of the PFSS field at the surface of the default model (azimuth mirrored, so the azimuthal component changes sign).",
     ["inputs"], "every coefficient set with non-negative orders and every surface point away from the poles",
     "No test compares the tangential components; the relation couples two modules' default radii and normalisations.",
     [CV, PF, Z], [("inverse factors", CV + ":convert_pfss_to_zdi,_beta_inverse_conversion_factor"), ("default radii", PF + ":default_radius_source_surface")])
prop("S10", "Folding negative orders leaves the real magnetogram unchanged",
     "Folding yields only orders 0..l, and the real radial field of the folded coefficients equals that of the original ones at every point. The input is not altered.",
     ["inputs"], "every single-component set with any mix of positive and negative orders, including cancelling pairs",
     "The test folds random dense sets at low degree; special phases, sparse pairs and cancellation are not covered.",
     [CV], [("folding loop", CV + ":map_to_positive_orders"), ("phase arithmetic", CV + ":collect_cosines")])
prop("S11", "Rotating a magnetogram is a rigid rotation of its field",
     "For a rotation R, the complex field of the rotated coefficients at a point equals the field of the original coefficients at the point moved by R, so successive rotations compose, the inverse rotation undoes a rotation, and the summed squared magnitude of the coefficients of each degree is preserved. Rotation by Euler angles in degrees is the rotation with the z-y-z angles, and the input is not altered.",
     ["inputs"], "every set (any orders), every rotation",
     "Rotations and sets form a continuum; tests try a few axis rotations of single coefficients.",
     [ROT], [("Wigner sum", ROT + ":rotate_magnetogram"), ("Euler angles", ROT + ":rotate_magnetogram_euler_zyz_deg")])
prop("S12", "ZDI field components equal the published spherical-harmonic series",
     "At every point the radial, polar and azimuthal components, and their poloidal and toroidal parts, equal the series in the alpha, beta and gamma coefficients documented for the magnetogram (Lehmann et al. eq. 5 with this package's sign convention: the polar component and the azimuthal toroidal part carry minus the theta-derivative of the Legendre function), each term exactly once.",
     ["inputs"], "all coefficient sets with non-negative orders (any sign for the radial field), all point arrays of any shape away from the poles",
     "Tests plot the fields or check single low-degree coefficients; the series quantifies over all degrees, orders and points.",
     [Z, AL], [("radial and 1/sin parts", Z + ":ZdiMagnetogram.get_radial_poloidal_field,get_azimuthal_poloidal_field,get_polar_toroidal_field"), ("derivative parts", Z + ":ZdiMagnetogram.get_polar_poloidal_field_new,get_azimuthal_toroidal_field_new"), ("Legendre functions", AL + ":calculate_lpmn"), ("normalisation", Z + ":get_c_lm")])
prop("S13", "Poloidal and toroidal parts add up to the field in every representation",
     "For each component the poloidal and toroidal parts add up to the full component, the field strength is the length of the field vector, and the Cartesian full, poloidal and toroidal fields are the same vectors expressed in Cartesian axes, so the Cartesian parts also add up. The field is linear in the coefficients.",
     ["inputs"], "all coefficient sets with non-negative orders and all point arrays away from the poles",
     "No test exercises the Cartesian parts or the sums for general sets.",
     [Z, CT], [("component sums", Z + ":ZdiMagnetogram.get_radial_field,get_polar_field,get_azimuthal_field,get_all"), ("Cartesian", Z + ":_cartesian_from_spherical_helper"), ("rotation matrix", CT + ":spherical_to_rectangular_transformation_matrix")])
prop("S14", "Restricting a magnetogram keeps exactly the selected coefficients",
     "Restricting to ranges of degree and order (inclusive; a single number means that value alone) keeps exactly the coefficients in range, in order, with their values; the dipole is degree one. The poloidal copy zeroes only the toroidal coefficients and the toroidal copy zeroes only the other two sets, so their fields add up to the original field. All of these are independent copies.",
     ["inputs"], "all magnetograms, all ranges with non-negative orders",
     "Tests do not compare the retained coefficients; ranges and coefficient sets are unbounded.",
     [Z], [("as_restricted/as_dipole", Z + ":ZdiMagnetogram.as_restricted"), ("as_poloidal/as_toroidal/copy", Z + ":ZdiMagnetogram.as_poloidal,as_toroidal,copy")])
prop("S15", "Magnetic energies are non-negative, complete and consistently attributed",
     "The energy of each coefficient is real and non-negative and the energies of all coefficients add up to the integral of the squared field over the unit sphere, component by component (radial, poloidal, toroidal). Every reported fraction is the energy of the named part divided by the energy of the named whole, for any magnetogram whether or not it holds particular degrees, and the energy matrices hold each coefficient's energy at its own degree and order and zero elsewhere.",
     ["inputs"], "all magnetograms with distinct (degree, order) pairs of degree at least one (the monopole carries only radial energy)",
     "Tests run the energy report on dense sets without checking values; sparse sets, imaginary axisymmetric coefficients and large values behave differently.",
     [Z], [("energy terms", Z + ":ZdiMagnetogram._energy_helper"), ("report", Z + ":ZdiMagnetogram.energy"), ("matrix", Z + ":ZdiMagnetogram.energy_matrix")])
prop("S16", "The PFSS field is the negative gradient of its harmonic potential",
     "Between the stellar surface and the source surface, the evaluated components equal minus the gradient of the potential given by the coefficients: radially the exact derivative of the radial functions, and tangentially the angular derivatives divided by the radius. The field is linear in the coefficients, depends on the given radii (defaults 1 and 2.5), and evaluation leaves coefficients and points unchanged.",
     ["inputs"], "all sets with non-negative orders, all radii with star inside source surface, all point arrays away from the poles",
     "Tests check one derivative value at the surface and array shapes; the gradient identity holds at all points for all degrees.",
     [PF, AL], [("radial functions", PF + ":r_l"), ("angular functions", PF + ":calculate_all_theta,phi_lm"), ("sum", PF + ":evaluate_spherical")])
prop("S17", "PFSS boundaries: zero inside the star, radial and inverse-square beyond",
     "At radii below the stellar radius the field is exactly zero; at and beyond the source surface it is purely radial, continuous across it, and falls off with the inverse square of the radius along each ray. Evaluation at Cartesian points gives the same vector field, in spherical components and in Cartesian components.",
     ["inputs"], "all sets with non-negative orders, all radii, any mixture of points inside, between and outside",
     "Tests evaluate grids within the model volume; point arrays mixing the three regions are unbounded.",
     [PF, CT], [("masks and extrapolation", PF + ":evaluate_spherical"), ("Cartesian", PF + ":evaluate_cartesian"), ("coordinates", CT + ":spherical_coordinates_from_rectangular")])
prop("S18", "Coordinate transformations are exact inverses and rotations",
     "Converting Cartesian points to spherical coordinates and back returns the points, for all points including the origin and the polar axis, with radius non-negative, polar angle in 0..pi and azimuth in -pi..pi, and converting spherical coordinates with those ranges to Cartesian and back returns them. The vector transformation matrices hold the local unit vectors, and the matrices of the two directions are inverse and transpose of each other.",
     ["inputs"], "all points and angles, arrays of any shape",
     "Tests use sample points; special positions such as axes and the origin need their own cases.",
     [CT], [("points", CT + ":spherical_coordinates_from_rectangular,rectangular_coordinates_from_spherical"), ("matrices", CT + ":spherical_to_rectangular_transformation_matrix,rectangular_to_spherical_transformation_matrix")])
prop("S19", "Grid facets tile the sphere with exact areas, centres and normals",
     "Each facet's area is the exact area of its patch of the unit sphere and is not negative; for a grid covering the sphere the areas add up to 4 pi, whatever the resolution or spacing. Centres are midway between corners and unit normals and Cartesian positions are the unit vectors at those angles.",
     ["inputs"], "all numbers of corners and all increasing corner arrays",
     "Tests check the default grids only.",
     [G], [("areas", G + ":ZdiGeometry.areas"), ("centers/normals", G + ":ZdiGeometry.centers,unit_normals")])
prop("S20", "The longitudinal field is the visible-area-weighted mean line-of-sight field",
     "The projected visible fraction of a facet is the cosine between its normal and the direction, or zero when it faces away, independent of the length of the direction vector. For each observer azimuth the longitudinal field is the mean of the line-of-sight component of the field weighted by facet area times visible fraction, whatever the type of the azimuth values.",
     ["inputs"], "all grids, magnetograms, inclinations and azimuth sequences",
     "The test compares against nothing; the mean must hold for every viewing direction.",
     [LF, G, Z], [("curve", LF + ":get_longitudinal_field_curve"), ("visibility", G + ":ZdiGeometry.projected_visible_area_fraction")])
prop("S21", "Field summary statistics are area-weighted over the named component",
     "The numerical description reports, for each component, each poloidal and toroidal part and the field strength, the maximum, area-weighted mean, root mean square and standard deviation of the absolute value of exactly that field on the grid.",
     ["inputs"], "all grids covering the sphere and all magnetograms with non-negative orders",
     "The test only runs it on one input.",
     [G, Z], [("statistics", G + ":numerical_description")])
prop("S22", "The Parker wind solves its equation on the right branch and conserves mass",
     "At every radius from the stellar surface outwards the wind speed satisfies the isothermal Parker equation, is subsonic below the sonic radius and supersonic above it, and density times speed times area is the same everywhere and equals the reported total mass flux; at the surface the density is the base density. Radii below the surface are treated as the surface, and the caller's radii are left unchanged.",
     ["inputs"], "all temperatures, densities, masses and radii with the sonic radius outside the star, all radius arrays",
     "Tests check the flux of one star at a few radii.",
     [PK], [("Lambert W solution", PK + ":AnalyticBase.find_parker_analytic"), ("speed/density", PK + ":ParkerSolution.speed,density")])
prop("S23", "Projecting a sampled field onto ZDI coefficients is the weighted inner product",
     "The coefficients computed from field samples on a grid equal, for every degree up to the limit and order 0..l, the area-weighted sums of the sampled components against the conjugate basis functions of the three ZDI coefficient families, normalised so that the samples of a band-limited field return its coefficients up to the quadrature error. The projection is linear in the samples and leaves them unchanged.",
     ["inputs"], "all grids (azimuth along the first axis), sample values, degree limits and explicit area elements",
     "A test recovers alpha and beta for a few coefficients to one percent; gamma and exact weights are untested.",
     [CV, AL, Z], [("inner products", CV + ":get_zdi_coeffs"), ("index set", CV + ":positive_lm")])
prop("S24", "Image decomposition and synthesis use the same spherical harmonics consistently",
     "Synthesis gives at each facet centre the sum of the coefficients times the spherical harmonics, and decomposition gives, for every degree below the limit and every order -l..l, the sum over facets of the image times the conjugate harmonic times the sine-weighted facet size, so that a decomposed synthesis returns the coefficients up to quadrature error. Repeated calls give the same result.",
     ["inputs"], "all grids of uniform spacing, images, coefficient sets and degree limits",
     "The test converts one image without comparing values.",
     [IM], [("from_image/to_image", IM + ":from_image,to_image"), ("cache", IM + ":_cached_spherical_harmonic")])
prop("S25", "The convert command writes exactly the converted input and destroys no file",
     "The output file holds the conversion of the first component of the input (ZDI to PFSS), the inverse conversion (PFSS to ZDI), or the unchanged coefficients (format change), for all degrees up to the highest stored or the requested maximum, with the SWMF header unless disabled (never for ZDI output). The input file is never modified, even when the output path names it differently; without an output name the output is the input's base name with the postfix and an existing file is not overwritten; inputs with several components are refused where one is expected.",
     ["inputs", "configurations"], "all input files, option combinations and ways of naming the output",
     "Tests run the command on sample files and check the exit code.",
     [BIN, RW, CV], [("modes", BIN + ":convert_zdi_to_pfss,convert_pfss_to_zdi,no_conversion"), ("file naming", BIN + ":_make_output_filename")])
prop("S26", "Evaluations and conversions leave their inputs unchanged and are repeatable",
     "No field evaluation, energy or grid computation, conversion, rotation, coefficient arithmetic, coordinate transformation or wind evaluation changes the arrays, magnetograms, grids or coefficient sets passed to it, results share no storage with inputs, and calling again with the same arguments gives the same result.",
     ["inputs", "histories"], "all public evaluation functions, all arguments, any order of repeated calls",
     "Tests never compare inputs before and after, nor a second call with the first.",
     [C, CV, Z, PF, G, IM, PK], [("in-place updates", Z + ":ZdiMagnetogram"), ("masked writes", PF + ":evaluate_spherical"), ("harmonic cache", IM + ":_cached_spherical_harmonic")])
prop("S27", "Wavelength intervals partition the samples exactly at the gaps",
     "The intervals are consecutive half-open index ranges that cover every sample exactly once, split exactly where neighbouring wavelengths differ by more than the threshold.",
     ["inputs"], "all wavelength vectors and thresholds",
     "The tests that use it are skipped for lack of data.",
     [PL], [("interval ends", PL + ":wl_intervals")])
prop("S28", "Fibonacci sphere points are unit vectors, one per equal-area zone",
     "For every number of points, the points are unit vectors, point i lies in the middle of the i-th of that many equal-area zones along the y axis, and without randomisation point i of n is turned by ((i+1) mod n) golden angles.",
     ["inputs"], "all point counts, randomised or not",
     "The test plots a few counts.",
     [FS], [("loop", FS + ":fibonacci_sphere")])
with open("/verif/properties.jsonl", "w") as f:
    for p in L:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(L), [p["id"] for p in L if len(p["title"]) > 80])
