------------------------------- MODULE Integrate -------------------------------
(* The time-integrated wave activity budget at one point: t the times, L the *)
(* wave activity, X a sequence of the three tendencies, each a function of    *)
(* the time index.  Integrals are kept twice their size to stay integer.      *)
EXTENDS Integers, Sequences
Trap2(t, x) ==
  LET s[i \in 1 .. Len(t)] == IF i = 1 THEN 0 ELSE s[i - 1] + (t[i] - t[i - 1]) * (x[i] + x[i - 1])
  IN  s[Len(t)]
Change(L) == L[Len(L)] - L[1]
Residual2(t, L, X) == 2 * Change(L) - Trap2(t, X[1]) - Trap2(t, X[2]) - Trap2(t, X[3])
(* what the caller gets: the names of the variables, in terms of the roles    *)
Roles == <<"convergence_zonal_advective_flux", "divergence_eddy_momentum_flux", "meridional_heat_flux">>
Outputs == {"delta_lwa", "integrated_convergence_zonal_advective_flux", "integrated_divergence_eddy_momentum_flux",
            "integrated_meridional_heat_flux", "residual"}
(* names looked up, the caller's own first *)
TimeNames == <<"time", "date", "datetime", "valid_time">>
Lookup(own, defaults, present) ==
  IF own # "" THEN (IF own \in present THEN own ELSE "KeyError")
  ELSE IF \E i \in 1 .. Len(defaults) : defaults[i] \in present
       THEN defaults[CHOOSE i \in 1 .. Len(defaults) : defaults[i] \in present /\ \A j \in 1 .. i - 1 : defaults[j] \notin present]
       ELSE "KeyError"
================================================================================
