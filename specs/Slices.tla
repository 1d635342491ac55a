--------------------------------- MODULE Slices --------------------------------
(* A dataset over extra dimensions (time, member, ...) as a family of fields. *)
(* size[d] is the number of labels of the d-th extra dimension, in the order   *)
(* of the input; a slice is a tuple of positions, counted from 1.              *)
EXTENDS Integers, Sequences, FiniteSets
Prod(s) == LET f[i \in 0 .. Len(s)] == IF i = 0 THEN 1 ELSE f[i - 1] * s[i] IN f[Len(s)]
\* the slices in the order of the flattened input, last dimension fastest
Slice(size, k) == [d \in 1 .. Len(size) |-> (((k - 1) \div Prod([i \in 1 .. Len(size) - d |-> size[d + i]])) % size[d]) + 1]
Slices(size) == [k \in 1 .. Prod(size) |-> Slice(size, k)]
Position(size, s) == LET f[d \in 0 .. Len(size)] == IF d = 0 THEN 0 ELSE f[d - 1] * size[d] + s[d] - 1 IN f[Len(size)] + 1

(* ---- what each stage returns: variables and their own dimensions ---------- *)
ZYX == <<"height", "ylat", "xlon">>   ZY == <<"height", "ylat">>   YX == <<"ylat", "xlon">>   Z == <<"height">>
Tab(V, D) == [v \in V |-> D]
Join(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
Stability(protocol, nh) == IF protocol = "NHN22" /\ ~ nh THEN {"static_stability_s", "static_stability_n"} ELSE {"static_stability"}
Interp(protocol, nh) == Join(Tab({"qgpv", "interpolated_u", "interpolated_v", "interpolated_theta"}, ZYX), Tab(Stability(protocol, nh), Z))
Refs == Tab({"qref", "uref", "ptref"}, ZY)
Column == Tab({"adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux", "divergence_eddy_momentum_flux",
               "meridional_heat_flux", "lwa_baro", "u_baro", "ncforce_baro", "flux_vector_lambda_baro", "flux_vector_phi_baro"}, YX)
Flux == Join(Column, Tab({"lwa"}, ZYX))
WaveOnly == Join(Tab({"lwa_baro", "u_baro"}, YX), Tab({"lwa"}, ZYX))
Layer == Tab({"lwa", "ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term"}, ZYX)
Forcing == Tab({"ncforce"}, ZYX)
Returns(stage, protocol, nh) ==
  CASE stage = "interp" -> Interp(protocol, nh) [] stage = "ref" -> Refs [] stage = "flux" -> Flux
    [] stage = "wave" -> WaveOnly [] stage = "layer" -> Layer [] stage = "force" -> Forcing
\* interpolated fields and forcing are global, what comes from reference states covers the analysed hemispheres
Global(v) == v \in {"qgpv", "interpolated_u", "interpolated_v", "interpolated_theta", "ncforce"}
================================================================================
