#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review)."""
import json
O = "src/falwa/oopinterface.py"; X = "src/falwa/xarrayinterface.py"; B = "src/falwa/basis.py"
BF = "src/falwa/barotropic_field.py"; W = "src/falwa/wrapper.py"; D = "src/falwa/data_storage.py"
U = "src/falwa/utilities.py"; F = "src/falwa/f90_modules/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": state or [], "observe_at": observe, "hook_needed": None}})

p("C01", "Stages run in order: prerequisites are enforced, refused calls change nothing",
  "On a QG field of either protocol, solving reference states before the fields are interpolated, or computing wave activity or fluxes (barotropic, layerwise or LWA-only) before the reference states are solved, raises ValueError, and so does reading any derived quantity that no completed stage has produced yet. A refused call or read leaves everything that was already readable exactly as it was, and after it the object still completes the normal sequence with the normal results. No legal call sequence (stages repeated, LWA-only before or after fluxes, layerwise before barotropic) is refused.",
  ["histories", "configurations"],
  "every sequence of stage calls and reads on one object, for NH18 and NHN22, global and northern-only, odd and even latitude counts",
  "The tests call the stages in one canonical order; the guards of individual outputs are only sampled for the layerwise terms right after construction, and the number of call orders is exponential in the length of the history.",
  [O, X], [("stage guards and completion flags", O + " compute_* methods and output properties")],
  ["exception type of every call", "which output properties are readable after every call"],
  [{"name": "stage flags", "meaning": "which stages have completed, and whether the last solve converged", "where": O}])

p("C02", "Results do not depend on call history, and inputs are never modified",
  "Whatever legal sequence of stage calls led to it, each output of a QG field equals, bit for bit, the output of the shortest canonical sequence on a fresh object with the same input and the same last call that produces that output: repeating, interleaving or reordering stages, or working on other objects in between, changes nothing. The tuple a stage returns holds the same values as the corresponding properties. The arrays passed in (coordinates, u, v, T, forcing) are never written to. Copying an object (copy.deepcopy) gives one that reads and continues exactly like it, and neither affects the other from then on.",
  ["histories", "inputs"],
  "all interleavings of stage calls on one and on two objects",
  "Tests build a fresh object and run each stage once; state left behind by one stage for the next (accumulated arrays, stale hemispheres, aliased inputs) only shows for particular orders.",
  [O, D, F + "compute_flux_dirinv.f90", F + "compute_lwa_only_nhn22.f90"],
  [("stages overwrite their storage completely from earlier stages", O), ("hemispheric setters", D)],
  ["every output property after every call", "input arrays before and after"],
  [{"name": "provenance of each output", "meaning": "which computation, on which input, produced the stored value", "where": D}])

p("C03", "A northern-hemisphere-only run gives the northern half of the global run",
  "For the same input, every output of a field created with northern_hemisphere_results_only=True equals the Northern Hemisphere rows of the output of the global field: on all rows poleward of the equator row when the grid has one, and on all rows poleward of the first northern row when the number of latitudes is even. Outputs that are always global (QGPV and the interpolated fields) are identical. The equator row itself, and what differentiates the wind across it when the boundary index of NHN22 is 0, are not part of this promise (each hemisphere has its own value there).",
  ["inputs", "configurations"],
  "all inputs, protocols, grids, boundary indices, and both settings of the flag",
  "No runnable test compares the two modes; the mode changes the shape and slicing of every storage array, so an indexing slip shows only in one mode, one protocol or one parity of the grid.",
  [O, D], [("hemisphere slices of storage and of latitudes", D + " NHemProperty/SHemProperty"), ("equator_idx, jd", O)],
  ["all output properties of both runs"])

p("C04", "Mirroring the atmosphere about the equator mirrors every result",
  "If the input is reflected about the equator (u and T mirrored, v mirrored and negated, forcing mirrored and negated), every global output is the mirror image of the original: QGPV, its reference state, the interpolated meridional wind and the meridional flux vector change sign; wave activity and its forcing projection, zonal fluxes, wind and temperature reference states, heat flux and momentum flux divergence do not, and the two hemispheric static stabilities change places. This holds on every latitude row except the equator row (odd grids) or the rows next to the equator (even grids), and for NHN22 with boundary index 0 except what differentiates the wind across the equator.",
  ["inputs", "configurations"],
  "all inputs, both protocols, all grids",
  "The two hemispheres run through different slices, sign flips and stored parameters; the tests only look at shapes or at one stored sample, never at the relation between the hemispheres.",
  [O, D, F + "compute_qgpv.f90", F + "compute_qgpv_direct_inv.f90", F + "compute_reference_states.f90"],
  [("southern hemisphere is solved on the flipped, sign-changed fields", O + " _compute_reference_states, _compute_intermediate_barotropic_flux_terms")],
  ["all output properties of the original and mirrored runs"])

p("C05", "Rotating the atmosphere in longitude rotates every result",
  "If u, v, T (and forcing) are shifted cyclically in longitude by any number of grid points, every output with a longitude dimension is shifted by the same amount and every zonally uniform output (reference states, static stability) is unchanged, up to rounding. This includes the wrap-around columns, and does not depend on the meridian the longitudes are counted from.",
  ["inputs", "configurations"],
  "all inputs, all shifts, both protocols and the barotropic tools",
  "Periodic wrap-around is special-cased for the first and last column in several places; tests never compare a rotated input.",
  [O, U, F + "compute_qgpv.f90", F + "compute_qgpv_direct_inv.f90"],
  [("periodic differences", U + " zonal_convergence; " + F + "compute_qgpv*.f90")],
  ["all output properties"])

p("C06", "Local wave activity is exactly the PV displacement integral, never negative",
  "At every level, latitude and longitude where it is computed, the local wave activity is the meridional integral (with cosine weight, over the hemisphere) of how far QGPV exceeds the reference value of that latitude on its equatorward side, plus how far it falls short on its poleward side, with hemispheric sign; it is therefore never negative (up to rounding). It is zero where it is not computed: equatorward of the boundary row of NHN22, at the poles, and at the lowest and highest level. The LWA-only route, the barotropic flux route and the layerwise route give the same wave activity, and the barotropic value is the density-weighted vertical average of the layers.",
  ["inputs", "configurations"],
  "all QGPV fields, both hemispheres, all boundary indices and routes",
  "The expected-value files cover one sample per protocol and are not even present; a displaced index, a lost boundary row or one-sided sum survives as long as shapes are right.",
  [O, F + "compute_flux_dirinv.f90", F + "compute_lwa_only_nhn22.f90"],
  [("wave activity kernels", F + "compute_flux_dirinv.f90, compute_lwa_only_nhn22.f90")],
  ["lwa, lwa_baro, qgpv, qref after each route"])

p("C07", "Qref is the area-preserving, monotone rearrangement of QGPV",
  "At every interior level the PV reference state increases monotonically with latitude away from the equator, stays within the range of QGPV at that level, and at each latitude takes the value for which the area with larger QGPV (smaller, in the south) equals the area poleward of that latitude, to within the two neighbouring values of the PV partition (npart equal steps between the level's extremes of the hemisphere in NH18, as many as there are analysis latitudes in NHN22) and apart from the area in the topmost step, which is not counted. The equator row is excluded. It depends on the area distribution of PV values only: exchanging values along a latitude circle does not change it.",
  ["inputs", "configurations"],
  "all QGPV fields, npart, grids, both protocols and hemispheres",
  "One stored sample cannot show that the area balance holds for each latitude and level, or for a partition count different from the number of latitudes.",
  [F + "compute_reference_states.f90", F + "compute_qref_and_fawa_first.f90", O, D],
  [("area/PV histogram and its inversion", F + "compute_reference_states.f90")],
  ["qref, qgpv"])

p("C08", "Every layerwise flux term follows its defining formula at every grid point",
  "At every level and latitude where they are defined (poleward of the equatorial boundary row, short of the pole), the layerwise terms satisfy their definitions from the published budget in terms of the object's own QGPV, winds, potential temperature and reference states: F1 is reference wind times wave activity, F2 is the PV-displacement integral of the eddy advection, F3 is the eddy kinetic/potential energy combination, the two meridional eddy momentum flux terms are taken one row north and one row south, the stretching term is the vertical derivative of the eddy heat flux, and the low-level meridional heat flux is evaluated from the two lowest levels. In the Southern Hemisphere they are the same expressions on the mirrored state.",
  ["inputs", "configurations"],
  "all inputs, both protocols, hemispheres, boundary indices",
  "Tests check that the arrays are finite and non-zero; each formula has many factors (cosine powers, row offsets, signs, which hemisphere's background) that one sample without oracle cannot pin down.",
  [O, F + "compute_flux_dirinv.f90", U], [("flux kernel", F + "compute_flux_dirinv.f90"), ("stretch term", O + " _compute_stretch_term")],
  ["ua1, ua2, ep1, ep2, ep3, stretch_term, meridional_heat_flux"])

p("C09", "Barotropic budget terms are the averages and divergences of the layer terms",
  "Each barotropic output is the density-weighted vertical average (weights exp(-z/H)dz over levels 1 and up, normalised by the object's prefactor) of the corresponding layerwise quantity: F1, F2, F3, wave activity, forcing, zonal wind and the meridional flux vector. The zonal flux vector is F1+F2+F3; the advective-flux convergence is minus its periodic centred zonal derivative and so has zero zonal mean on every latitude; the momentum flux divergence is the centred meridional difference of the two meridional flux terms divided by the cosine of latitude.",
  ["inputs", "configurations"],
  "all inputs, both protocols, both modes, vertical spacings and scale heights",
  "Two such identities are tested on a data file that is absent, on one configuration; none is tested with non-default dz, scale height or radius, where a hard-coded constant would show.",
  [O, U], [("vertical average", O + " _vertical_average"), ("output terms", O + " compute_lwa_and_barotropic_fluxes"), ("periodic convergence", U + " zonal_convergence")],
  ["barotropic output properties against layerwise ones"])

p("C10", "Outputs live on the user's grid, whatever its parity and the mode",
  "For every accepted grid, each output has the longitudes and latitudes of the input (all of them globally; from the equator row, or the first northern row when the number of latitudes is even, to the pole in northern-only mode), kmax levels with heights k*dz, and no NaN; the tuples returned by the stages have the same shapes; the reported latitude dimension is that of the input, and the latitudes reported for the analysis of the reference states are those of the grid with the equator (from the equator on in northern-only mode). On an even grid the results are those of the analysis on the grid with one more latitude, linearly interpolated back: fields linear in latitude come back unchanged.",
  ["configurations", "inputs"],
  "all latitude counts (odd/even), nlon, kmax, dz, protocols, modes, with or without vertical interpolation",
  "Runnable tests use one even grid with one protocol; each output has its own hand-written interpolation axis and shape.",
  [O, D], [("grid selection and back-interpolation", O + " _check_and_flip_ylat, _return_interp_variables, ylat_ref_states")],
  ["shapes and values of all output properties, ylat_ref_states, height"])

p("C11", "The constructor accepts exactly the documented inputs",
  "Construction raises TypeError when latitudes descend, when pressure ascends, when an odd-sized latitude grid has no equator row or any grid has several, or when any of u, v, T does not have the shape (levels, latitudes, longitudes); it raises ValueError when kmax reaches above the input's top level (up to rounding), and the maximum kmax the message suggests is itself accepted while the next one is not. Masked arrays are accepted with a warning and give the results of their underlying data; when several faults apply, the error of any of them is raised. Everything else documented as valid is accepted, with pre-interpolated input taking kmax and dz from its own levels.",
  ["configurations", "inputs"],
  "all combinations of coordinate order, grid parity, field shapes, kmax around the limit, masks",
  "Tests try one bad kmax; combinations and the exact boundary of kmax are not sampled.",
  [O], [("input checks", O + " __init__, _check_valid_plev, _check_and_flip_ylat, _check_dimension_of_fields, _convert_masked_data")],
  ["constructor outcome", "suggested kmax"])

p("C12", "Vertical interpolation is linear in height and the background profile is right",
  "On the uniform height grid, u, v and potential temperature equal the input at heights that coincide with input levels and lie on the straight line between the two neighbouring levels elsewhere, potential temperature being T(1000 hPa/p)^(R/cp); with pre-interpolated input they are the input itself. The static stability is the vertical derivative of the area-weighted mean potential temperature of each hemisphere poleward of and including the boundary row (NHN22) or of the average of both hemispheres (NH18): exact whenever that profile is a polynomial of degree at most three.",
  ["inputs", "configurations"],
  "all level distributions, fields, scale heights, gas constants",
  "The only value check needs absent files; wrong level pairing or hemisphere weights keep shapes and plausibility.",
  [O], [("vertical interpolation", O + " interpolate_fields, _vertical_interpolation"), ("hemispheric mean profile", O + " _compute_static_stability_func")],
  ["interpolated_u, interpolated_v, interpolated_theta, static_stability"])

p("C13", "QGPV is absolute vorticity plus stretching at every interior point",
  "At every interior level QGPV equals planetary vorticity plus the spherical finite-difference relative vorticity (periodic in longitude) plus exp(z/H) d/dz[exp(-z/H)(theta-theta0)/(dtheta0/dz)] times the Coriolis parameter (NHN22) or the zonal-mean absolute vorticity (NH18), with the background of that hemisphere (NHN22) or of the globe (NH18). At the pole rows the relative vorticity is the zonal mean of that next to the pole. The first and last level are zero.",
  ["inputs", "configurations"],
  "all inputs, both protocols, grids, constants",
  "Value checks need absent files; the formula has a wrap-around column, pole rows and hemisphere-dependent profiles that a shape test does not see.",
  [F + "compute_qgpv.f90", F + "compute_qgpv_direct_inv.f90", O], [("QGPV kernels", F + "compute_qgpv.f90, compute_qgpv_direct_inv.f90")],
  ["qgpv, interpolated fields, static_stability"])

p("C14", "Reference wind and temperature are in balance with each other and with Qref",
  "In each hemisphere the reference temperature at every interior level has the area-weighted mean of the hemisphere's background temperature (over the rows from the boundary row poleward) and satisfies thermal wind balance with the reference wind; the reference wind satisfies the PV inversion (elliptic) equation for Qref at interior points to solver accuracy (in NH18 not promised at the row next to the equator), is zero at the lowest level and obeys thermal wind with the zonal-mean temperature at the top. The pole row is extrapolated. At the equator row the NH18 reference wind is the zonal-mean wind, and in NHN22 rows equatorward of the boundary index carry no reference wind or temperature.",
  ["inputs", "configurations"],
  "all inputs, both protocols, hemispheres, boundary indices, constants",
  "A solved field only looks plausible; only substituting it back into the equations, for each hemisphere and configuration, shows that it solves them.",
  [F + "compute_reference_states.f90", F + "matrix_b4_inversion.f90", F + "matrix_after_inversion.f90", F + "upward_sweep.f90", F + "compute_qref_and_fawa_first.f90", O],
  [("SOR solver", F + "compute_reference_states.f90"), ("direct inversion", F + "upward_sweep.f90")],
  ["uref, ptref, qref"])

p("C15", "A reference state that did not converge is flagged and never used for fluxes",
  "When the iterative solver reaches maxit in either hemisphere, compute_reference_states raises ValueError (default) or warns (if told not to raise), nonconvergent_uref is True, and the flux computations are refused while LWA-only stays available; when both hemispheres converge the flag is False, nothing is raised or warned, and fluxes are available. Re-solving decides the state afresh: fluxes are available if and only if the latest solve converged.",
  ["histories", "inputs", "configurations"],
  "all iteration limits relative to the two hemispheres' needs, all orders of solve / flux / LWA-only calls",
  "The one test of this uses absent data and fields that fail in both hemispheres at once; single-hemisphere failure and re-solving are not reached.",
  [O, F + "compute_reference_states.f90"], [("iteration count and flag", O + " _nonconvergence_notification, _compute_reference_states")],
  ["nonconvergent_uref, exceptions, warnings"],
  [{"name": "convergence flag", "meaning": "outcome of the latest solve", "where": O}])

p("C16", "A QGDataset is exactly its slices, each one QG field, correctly labelled",
  "For inputs with any number of extra dimensions (time, member, ...), every variable of every dataset returned by QGDataset holds, at each coordinate, exactly what a QG field built from that slice alone returns for that quantity, with dimensions (extra..., height, ylat, xlon), the input's coordinate values, and the variable names and attributes (constants, kmax, protocol) that belong to it. Hemispheric static stabilities are labelled with their own hemisphere, and forcing passed in is matched to slices by coordinate.",
  ["inputs", "configurations"],
  "all numbers, sizes and orders of extra dimensions, both protocols and modes, all stages",
  "The xarray tests that run data through QGDataset cannot be run here, and they compare the dataset with itself, never with independent fields per slice.",
  [X], [("flattening and restoring of extra dimensions", X + " _MetadataServiceProvider, _DataArrayCollector, QGDataset")],
  ["returned datasets and accessors"])

p("C17", "QGDataset does not care how the input is ordered, named or packaged",
  "Reversing the latitude or pressure axis of the input (or both), using any recognised or user-declared coordinate and variable name, and passing one Dataset, a mixture of Datasets and DataArrays, or three DataArrays all give the same results on the same ascending-latitude output grid. Inputs of the wrong type, with missing arguments or with wrong dimension order are rejected with AssertionError, missing names with KeyError, and mismatched coordinate labels with ValueError; when several faults apply, with the error of any of them.",
  ["configurations", "inputs"],
  "all combinations of axis order, naming and packaging",
  "Tests check single flips by shape on data that cannot be loaded here; combinations of flips with naming and extra dimensions are not sampled.",
  [X], [("axis flips and name lookup", X + " QGDataset.__init__, _get_name")],
  ["returned datasets"])

p("C18", "The time-integrated budget closes exactly",
  "integrate_budget returns, for any dataset of budget terms along time, the change of wave activity between the first and last time, the trapezoidal time integrals in seconds of the three budget terms over all (possibly uneven) time steps in the order of the axis, which may also run backwards, and a residual that is exactly the change minus the three integrals at every point. The attributes give the first and last time and the elapsed seconds, the input's attributes and coordinates are kept, and renamed variables or time axes given by the caller are honoured; a name that is absent is refused with KeyError.",
  ["inputs", "configurations"],
  "all time axes, lengths, extra dimensions and names",
  "There is no test of it at all.",
  [X], [("integrals and residual", X + " integrate_budget")], ["returned dataset"])

p("C19", "hemisphere_to_globe mirrors a hemisphere faithfully",
  "The result of extending a hemisphere to the globe contains the original rows unchanged, their mirror images about the equator, the equator row once, and latitudes that are monotonic and symmetric; the meridional wind is negated on the mirrored side only and nothing else changes sign. This holds whether the input is northern or southern, starts or ends at the equator, whatever the other dimensions and the names are, variables without a latitude dimension pass through unchanged, and an input without an equator row (within 1e-4 degrees) is rejected with AssertionError.",
  ["inputs", "configurations"],
  "all orientations, hemispheres, names, extra dimensions",
  "There is no test of it at all.",
  [X], [("reflection and concatenation", X + " hemisphere_to_globe")], ["returned dataset"])

p("C20", "Equivalent latitude is the area rearrangement of the field on the sphere",
  "For any field on the sphere, the equivalent-latitude function (alone, through the barotropic field class and through the wrappers) returns reference values that never decrease with latitude, stay within the field's range, and are the linear interpolation in latitude of the partition values against the latitudes that enclose the same area as the region below them; it is unchanged by any rearrangement that keeps the area of each value, and adding a constant or scaling the field acts on it likewise. The bracket-average variant returns the same reference values, and at each partition value half the sum of the area-weighted means of the given quantity over the partition step before and the one after its own (0 for an empty step; so a constant comes back), zero at the first and last. The finite-amplitude wave activity returned beside it at every row but the first is minus the trapezoidal integral of the zonal mean north of the row and minus the integral of the field below the row's reference value, over 2 pi a.",
  ["inputs", "configurations"],
  "all fields, partition counts, latitude grids, areas and radii",
  "Tests use one data file and one partition count and compare summary properties.",
  [B, BF, W], [("histogram and interpolation", B + " eqvlat_fawa, eqvlat_vgrad"), ("barotropic class", BF)],
  ["returned reference values"])

p("C21", "Barotropic wave activity is exact, non-negative and splits into its two parts",
  "For any field, any prescribed reference values and any length element, the barotropic wave activity at each latitude except the last equals the sum over rows up to and including it of the excess of the field over the reference value, plus the sum over rows beyond it of the deficit, each times the length element; the two parts (deficit and excess) are returned separately on request, are each non-negative, and add up to the total, and the last row is zero. The same masks applied to a forcing field give its wave-activity projection, and the class and wrappers built on it return the same values.",
  ["inputs", "configurations"],
  "all integer-valued fields on small grids (exhaustive), random larger ones, all flags",
  "One analytic case is tested; boundary rows, ties with the reference value and the partition/forcing flags are not.",
  [B, BF, W], [("LWA masks", B + " lwa")], ["returned arrays"])

p("C22", "Hemispheric wrappers treat the two hemispheres as mirror images",
  "Every hemispheric wrapper gives, in the southern rows, what the barotropic tools give on the southern rows alone, and in the northern rows the (sign-reversed, for vorticity and its brackets; sign-preserving, for temperature) reference values of the mirrored north, with wave activity and forcing projection computed on each hemisphere's own rows; rows outside both extents are zero. Options (extent, number of partitions, bracket, forcing) select exactly the extra outputs documented, without altering the others.",
  ["inputs", "configurations"],
  "all fields, hemisphere extents, partition counts and option combinations",
  "The wrappers are only touched by one integration test of the global barotropic one.",
  [W, B], [("hemispheric composition", W)], ["returned arrays of all wrappers"])

p("C23", "Results are independent of the unit system: no constant is hard-wired",
  "If all inputs and constructor constants (winds, radius, rotation rate, gas constant, heat capacity, scale height, level spacing, forcing, areas and length elements) are converted to other units of horizontal length, time and height (temperature and angles keep theirs), every output changes by exactly its own physical dimension, and nothing else. In particular each result follows the constants given to the constructor and never a built-in default.",
  ["inputs", "configurations"],
  "all unit changes by powers of two in three independent units, both protocols, modes, all outputs",
  "All tests use the default Earth constants, for which a hard-wired default is invisible.",
  [O, U, F + "*.f90"], [("constants threaded through all kernels", O)], ["all output properties"])

p("C24", "Diabatic forcing enters linearly, and where it belongs",
  "The forcing computed from a heating rate is f exp(z/H) d/dz[exp(-z/H) heating/(static stability)] with the static stability of each hemisphere (their mean at the equator), one-sided at the bottom and top level. Its wave-activity projection, layerwise and barotropic, is the displacement-weighted integral of the forcing with the same cells and signs as the wave activity itself, linear in the forcing, zero for no forcing (the default), with the mirrored convention in the south; no other output depends on it.",
  ["inputs", "configurations"],
  "all forcings, protocols, modes",
  "One test with absent data checks that the result is not all NaN.",
  [O, U, F + "compute_flux_dirinv.f90"], [("forcing operator", O + " compute_ncforce_from_heating_rate; " + U + " z_derivative_of_prod"), ("projection", F + "compute_flux_dirinv.f90")],
  ["compute_ncforce_from_heating_rate, ncforce_baro, layerwise ncforce"])

p("C25", "Difference and statistics utilities are exact on what they can represent",
  "The zonal convergence, meridional divergence, curl, vertical product derivative, layer static stability, stretching-term PV and row-wise covariance utilities equal their defining difference formulas at every grid point including edges, wrap-around columns and poles, for all array sizes and given constants. Zonal convergence has zero zonal sum on every row, and meridional divergence and curl vanish where the formula gives exact cancellation (e.g. flux proportional to 1/cos(latitude), solid-body rotation of the right form).",
  ["inputs", "configurations"],
  "all small integer fields, sizes and constants",
  "Only zonal convergence has a (single) numeric test.",
  [U, "src/falwa/stat_utils.py"], [("difference formulas", U)], ["returned arrays"])

p("C26", "Results depend on the input's values, not on how they are stored",
  "Giving the same numbers to any part of the library as arrays stored differently - rows or columns first, subsampled or reversed views, unaligned, read-only, of either byte order, of single, double or integer type where these hold the values - or, for QGDataset, as data held in memory, in dask chunks or in a netCDF file, gives the same results up to rounding, never an error, and leaves the arrays given unchanged. Whole options may be given as integers.",
  ["inputs", "configurations"],
  "all storage layouts and numeric kinds of all array arguments of the classes, wrappers, dataset layer and utilities",
  "The tests give double-precision row-major arrays (or one netCDF file) only; what a Fortran wrapper or zeros_like does with another layout or type is not sampled.",
  [O, X, U, "src/falwa/basis.py", "src/falwa/barotropic_field.py"], [("arrays handed to Fortran and numpy", O)], ["all outputs of each part"])
p("C27", "Extracted snapshots are those asked for, and nothing else changes",
  "extract_one_timeslice writes a netCDF file that holds exactly the time steps asked for (by position from the start, or negative from the end; repeated or in any order; the first by default), in the order asked for, of every variable with a time axis, and everything else - other variables, labels, dimensions, attributes - as in the source file, replacing an older file of that name. The source file and the request are left alone. A position past the end of the file (IndexError), a file without a time dimension (ValueError) and a missing file (FileNotFoundError) are refused.",
  ["inputs", "configurations", "histories"],
  "all files, lists of positions, chains of extractions",
  "There is no test of it at all.",
  ["src/falwa/netcdf_utils.py"], [("selection by position", "src/falwa/netcdf_utils.py extract_one_timeslice")], ["file written, outcome"])
p("C28", "A QGDataset goes through any history of calls as its slices' fields would",
  "Through any sequence of calls - stages in any order, repeated, refused, with forcing or without, iteration limits with which none, some or all slices converge, copies of the dataset - each slice of a QGDataset stays what a QG field of its own given the same calls would be. A stage succeeds exactly when every slice's field would accept it and raises ValueError otherwise; an output can be read exactly when it can be of every slice; what is read or returned, with return_dataset or without, is what the fields hold; one slice that did not converge keeps the fluxes of the dataset unavailable but not its LWA. After a refused call every slice has either run the stage or is unchanged, and the normal sequence afterwards completes. Datasets handed out before, datasets copied from, and inputs never change.",
  ["histories", "configurations", "inputs"],
  "all sequences of calls on datasets of any extra dimensions, all patterns of convergence among the slices, both protocols and modes",
  "The xarray tests run each stage once, in order, on slices that all converge.",
  [X, O], [("loops over the fields and collection of their results", X + " QGDataset, _DataArrayCollector")], ["outcome, warnings, returned datasets, accessors and fields after each call"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
