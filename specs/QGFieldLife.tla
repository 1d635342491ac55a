----------------------------- MODULE QGFieldLife -----------------------------
(* The life cycle of one QG field object (oopinterface.QGFieldBase and its   *)
(* two protocols): which calls are accepted in which state, what they leave  *)
(* behind, and where each readable output comes from.                        *)
(*                                                                           *)
(* One action per public stage method.  The abstract state records, for each *)
(* stage, which computation its stored results come from (provenance); the   *)
(* readable outputs and their provenance are functions of the state.         *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- configuration of an object -------------------------------------------
   cls   : "NH18" (iterative solver) or "NHN22" (direct solver)
   nh    : northern_hemisphere_results_only
   raise : raise_error_for_nonconvergence
   needN, needS : iterations after which the solver converges in each hemisphere *)
Cfgs(needs) == [cls : {"NH18"}, nh : BOOLEAN, raise : BOOLEAN, needN : needs, needS : needs]
               \cup [cls : {"NHN22"}, nh : BOOLEAN, raise : {TRUE}, needN : {0}, needS : {0}]

(* A solve with iteration limit m converges in a hemisphere needing n
   iterations iff n < m (an iteration count equal to the limit is a failure). *)
ConvN(c, m) == c.cls = "NHN22" \/ c.needN < m
ConvS(c, m) == c.cls = "NHN22" \/ c.nh \/ c.needS < m
Converges(c, m) == ConvN(c, m) /\ ConvS(c, m)

(* ---- operations ------------------------------------------------------------- *)
Op(n, m, f) == [op |-> n, m |-> m, f |-> f]
Interp == Op("interp", 0, "none")
Solve(m) == Op("solve", m, "none")
Lwa == Op("lwa", 0, "none")
Flux(f) == Op("flux", 0, f)
Layer(f) == Op("layer", 0, f)
Copy == Op("copy", 0, "none")                   \* the object is copied (or stored and restored), work goes on with the copy

(* "-" marks a stage that has not been run; forcing "none" is the default.      *)
(* ---- state -------------------------------------------------------------------
   interp : BOOLEAN              fields interpolated
   ref    : "-" | "ok" | "bad" | "undef"   ("undef": a solve was refused half way)
   conv   : which hemispheres converged in the latest solve
   baro   : "-" | "flux" | "lwa"     what lwa_baro, u_baro come from
   flux   : "-" | forcing             barotropic fluxes, with which forcing
   lwa3   : "-" | "flux" | "lwa" | "layer"   what the 3-D wave activity comes from
   layer  : "-" | forcing                                                    *)
Init0 == [interp |-> FALSE, ref |-> "-", conv |-> <<TRUE, TRUE>>, baro |-> "-",
          flux |-> "-", lwa3 |-> "-", layer |-> "-", dirty |-> FALSE]

(* ---- guards: the documented prerequisites -------------------------------------- *)
Accepted(c, s, o) ==
  CASE o.op \in {"interp", "copy"} -> TRUE
    [] o.op = "solve"  -> s.interp /\ (Converges(c, o.m) \/ ~ c.raise)
    [] o.op = "lwa"    -> s.ref # "-"                \* also after non-convergence
    [] o.op = "flux"   -> s.ref = "ok"
    [] o.op = "layer"  -> s.ref = "ok"

(* A refused solve on interpolated fields (non-convergence with raise) did run. *)
Raised(c, s, o) == o.op = "solve" /\ s.interp /\ ~ Accepted(c, s, o)

(* ---- effects --------------------------------------------------------------------- *)
After(c, s, o) ==
  IF Raised(c, s, o)
  THEN [s EXCEPT !.ref = "undef", !.conv = <<ConvN(c, o.m), FALSE>>]
  ELSE IF ~ Accepted(c, s, o) THEN s
  ELSE CASE o.op = "copy" -> s                     \* a copy is in the same state
         [] o.op = "interp" -> [s EXCEPT !.interp = TRUE]
         [] o.op = "solve"  -> [s EXCEPT !.ref = IF Converges(c, o.m) THEN "ok" ELSE "bad",
                                         !.conv = <<ConvN(c, o.m), ConvS(c, o.m)>>]
         [] o.op = "lwa"    -> [s EXCEPT !.baro = "lwa", !.lwa3 = "lwa", !.dirty = (s.ref = "undef")]
         [] o.op = "flux"   -> [s EXCEPT !.baro = "flux", !.lwa3 = "flux", !.flux = o.f, !.dirty = FALSE]
         [] o.op = "layer"  -> [s EXCEPT !.lwa3 = "layer", !.layer = o.f]

Flag(s) == s.ref \in {"bad", "undef"}                        \* nonconvergent_uref
Warns(c, s, o) == o.op = "solve" /\ s.interp /\ ~ Converges(c, o.m) /\ ~ c.raise

(* ---- outputs ----------------------------------------------------------------------- *)
InterpOut == {"qgpv", "interpolated_u", "interpolated_v", "interpolated_theta", "static_stability"}
RefOut    == {"qref", "uref", "ptref"}
FluxOut   == {"adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux",
              "divergence_eddy_momentum_flux", "meridional_heat_flux",
              "flux_vector_lambda_baro", "flux_vector_phi_baro", "ncforce_baro"}
LwaBaro   == {"lwa_baro", "u_baro"}
LayerOut  == {"ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term"}
Outputs   == InterpOut \cup RefOut \cup FluxOut \cup LwaBaro \cup {"lwa"} \cup LayerOut

\* the order in which recorded events list the outputs
OutSeq == <<"qgpv", "interpolated_u", "interpolated_v", "interpolated_theta", "static_stability",
            "qref", "uref", "ptref",
            "adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux",
            "divergence_eddy_momentum_flux", "meridional_heat_flux", "flux_vector_lambda_baro",
            "flux_vector_phi_baro", "lwa_baro", "u_baro", "ncforce_baro", "lwa",
            "ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term">>

(* Outputs that must raise ValueError / must be readable.  static_stability is
   a plain attribute that reads as None before interpolation; it is not listed. *)
MustRead(s) ==
  (IF s.interp THEN InterpOut ELSE {})
  \cup (IF s.ref \in {"ok", "bad"} THEN RefOut ELSE {})
  \cup (IF s.flux # "-" THEN FluxOut ELSE {})
  \cup (IF s.baro # "-" THEN LwaBaro ELSE {})
  \cup (IF s.lwa3 # "-" THEN {"lwa"} ELSE {})
  \cup (IF s.layer # "-" THEN LayerOut ELSE {})
MustRefuse(s) ==
  (IF ~ s.interp THEN InterpOut \ {"static_stability"} ELSE {})
  \cup (IF s.ref = "-" THEN RefOut ELSE {})
  \cup (IF s.flux = "-" THEN FluxOut ELSE {})
  \cup (IF s.baro = "-" THEN LwaBaro ELSE {})
  \cup (IF s.lwa3 = "-" THEN {"lwa"} ELSE {})
  \cup (IF s.layer = "-" THEN LayerOut ELSE {})

(* ---- provenance: the canonical run each readable output must equal ------------------- *)
ConvName(cv) == (IF cv[1] THEN "Y" ELSE "N") \o (IF cv[2] THEN "Y" ELSE "N")
Source(s, p) ==
  CASE p \in InterpOut -> "I"
    [] p = "qref" -> IF s.ref = "undef" THEN "any" ELSE "R-YY"         \* does not depend on the solver
    [] p \in {"uref", "ptref"} -> IF s.ref = "undef" THEN "any" ELSE "R-" \o ConvName(s.conv)
    [] p \in FluxOut -> "F-" \o s.flux
    [] p \in LwaBaro -> IF s.dirty THEN "any" ELSE IF s.baro = "flux" THEN "F-none" ELSE "L"
    [] p = "lwa" -> IF s.lwa3 = "lwa" /\ s.dirty THEN "any"
                    ELSE IF s.lwa3 = "flux" THEN "F-none" ELSE IF s.lwa3 = "lwa" THEN "L" ELSE "Y-none"
    [] p \in LayerOut -> "Y-none"

TupleOf(op) ==
  CASE op = "interp" -> <<"qgpv", "interpolated_u", "interpolated_v", "interpolated_theta", "static_stability">>
    [] op = "solve"  -> <<"qref", "uref", "ptref">>
    [] op = "flux"   -> <<"adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux",
                          "divergence_eddy_momentum_flux", "meridional_heat_flux", "lwa_baro", "u_baro", "lwa">>
    [] OTHER -> <<>>
=============================================================================
