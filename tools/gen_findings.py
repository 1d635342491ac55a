"""Writes known_findings.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C04", "7e2147e", "QGFieldNHN22 added the other hemisphere's mean temperature to PTref, so mirroring the atmosphere did not mirror ptref"),
 ("C04", "159dcc6", "QGFieldNHN22 solved the Southern Hemisphere with the Northern Hemisphere's boundary circulation (absolute vorticity not negated)"),
 ("C16", "1dd32d8", "QGDataset.static_stability labelled the hemispheres the wrong way round"),
 ("C16", "bb7a270", "QGDataset.compute_ncforce_from_heating_rate crashed with northern_hemisphere_results_only=True"),
 ("C17", "4f7d65a", "QGDataset.compute_ncforce_from_heating_rate did not reorder a heating rate given with descending latitude or ascending pressure"),
 ("C10", "6bf0464", "compute_layerwise_lwa_fluxes crashed on grids with an even number of latitudes"),
 ("C10", "0ccc9f9", "qgpv and the interpolated fields could not be read on even grids with northern_hemisphere_results_only=True"),
 ("C06", "1d76352", "compute_lwa_only left the Southern Hemisphere's cyclonic and anticyclonic wave activity unset"),
 ("C15", "b72aa26", "nonconvergent_uref stayed set after a later, converged compute_reference_states"),
 ("C01", "e250119", "compute_lwa_only and compute_layerwise_lwa_fluxes ran without their prerequisites"),
 ("C01", "8e952f9", "reading an output before its stage raised AttributeError/TypeError or returned None instead of ValueError"),
 ("C01", "59462e7", "barotropic flux outputs read as zeros before they were computed"),
 ("C02", "194db0f", "on even grids the tuple returned by compute_lwa_and_barotropic_fluxes was on the analysis grid, not the user's latitudes"),
 ("C08", "f0965ba", "compute_flux_dirinv_nshem wrote row 0 of ep2/ep3 (out of bounds) when the boundary index is 0"),
 ("C21", "af1736a", "barotropic_input_qref_to_compute_lwa returned a tuple instead of the wave activity"),
 ("C22", "f1c4083", "eqvlat_hemispheric returned the Northern Hemisphere's reference vorticity with the wrong sign"),
 ("C22", "303cb96", "eqvlat_hemispheric crashed with vgrad"),
 ("C24", "7602d5b", "compute_ncforce_from_heating_rate crashed on grids with an even number of latitudes"),
 ("C24", "9c559d2", "forcing given on the user's latitudes was rejected on grids with an even number of latitudes"),
 ("C13", "10d76b0", "QGPV used the latitude spacing for the zonal derivative of v, so relative vorticity was wrong wherever the two spacings differ"),
 ("C25", "f03e111", "zonal_convergence and meridional_divergence returned the raw difference instead of 0 where the cosine of latitude vanishes"),
 ("C25", "8f96859", "meridional_divergence returned half the one-sided derivative on the first and last row"),
 ("C14", "d8020d1", "QGFieldNHN22 returned uref = 0 on the equatorward boundary row although its inversion used the boundary circulation there"),
 ("C14", "9d5fc45", "QGFieldNHN22 returned -omega*a*cos(phi) for uref in the equatorward top corner because the circulation was not computed at the top level"),
 ("C14", "fcf6fae", "QGFieldNHN22 took the temperature gradient of the top boundary condition eq_boundary_index rows too far equatorward"),
 ("C11", "78917dc", "a temperature field of the wrong shape was accepted when it broadcasts, or failed with ValueError, instead of TypeError"),
 ("C18", "0938ed2", "integration_seconds was wrong by 10^3 to 10^9 when the time axis is not datetime64[ns]"),
 ("C17", "1b7ee23", "a Dataset given for da_v or da_t crashed when da_u is a DataArray"),
 ("C25", "0c1180b", "compute_qgpv_givenvort returned uninitialised memory (NaN if there is one) at the equator row of odd grids"),
 ("C19", "83565ff", "hemisphere_to_globe gave a latitude dimension to variables that have none"),
 ("C14", "72c3c4b", "QGFieldNHN22 could not compute reference states for level spacings whose kmax-th multiple is rounded up (dz=1000.2, kmax=12)"),
 ("C11", "bc64965", "grids of 78, 156, 312, ... latitudes were refused with IndexError because the analysis grid missed latitude 0 by a rounding error"),
 ("C26", "721a598", "zonal_convergence, meridional_divergence, curl_2d and compute_qgpv_givenvort truncated their results for fields of integer type"),
 ("C20", "19b8587", "eqvlat_fawa and eqvlat_vgrad returned NaN where rounding (or the rule the cell areas come from) put the enclosed area just above the sphere's"),
 ("C11", "b36a35f", "ascending pressure levels were accepted with data_on_evenly_spaced_pseudoheight_grid=True"),
]
FINDINGS = []
json.dump({"findings": FINDINGS, "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]},
          open(os.path.join(V, "known_findings.json"), "w"), indent=1)
