------------------------------- MODULE UserGrid -------------------------------
(* What the user sees: outputs on the latitudes of the input.  Even numbers of *)
(* rows are analysed on a grid of one more row with an equator, and the result *)
(* is interpolated back.  Rows of an even grid run from pole to pole ("poles") *)
(* or are the centres of n bands ("centres").                                 *)
EXTENDS Grid
Kinds == {"poles", "centres"}
Den(g, n) == IF Odd(n) THEN 1 ELSE IF g = "poles" THEN n - 1 ELSE 2
\* user's row j lies between rows j and j+1 of the analysis grid
WLo(g, n, j) == IF Odd(n) THEN 1 ELSE IF g = "poles" THEN n - j ELSE 1
WHi(g, n, j) == IF Odd(n) THEN 0 ELSE IF g = "poles" THEN j - 1 ELSE 1
UpperRow(n, j) == IF Odd(n) THEN j ELSE j + 1
Shown(g, A, n) == [j \in 1 .. n |-> WLo(g, n, j) * A[j] + WHi(g, n, j) * A[UpperRow(n, j)]]      \* times Den
(* the way there: times n (poles) or 2 (centres); beyond the outermost centres the line through the last two *)
DenA(g, n) == IF Odd(n) THEN 1 ELSE IF g = "poles" THEN n ELSE 2
Analysed(g, F, n) ==
  IF Odd(n) THEN F
  ELSE IF g = "poles" THEN [j \in 1 .. n + 1 |-> (IF j <= n THEN (n + 1 - j) * F[j] ELSE 0) + (IF j > 1 THEN (j - 1) * F[j - 1] ELSE 0)]
  ELSE [j \in 1 .. n + 1 |-> IF j = 1 THEN 3 * F[1] - F[2] ELSE IF j = n + 1 THEN 3 * F[n] - F[n - 1] ELSE F[j - 1] + F[j]]
(* latitudes in units of 90 degrees over (n-1)n *)
LatA(n, j) == IF Odd(n) THEN (2 * (j - 1) - (n - 1)) * n ELSE (2 * (j - 1) - n) * (n - 1)
Lat(g, n, j) == IF g = "poles" THEN (2 * (j - 1) - (n - 1)) * n ELSE (2 * j - 1 - n) * (n - 1)
\* the latitudes the reference states are computed on: rows of the analysis grid, of the north with the equator in that mode
RefLats(n, nh) == LET a == NAnalysis(n) f == IF nh THEN (a - 1) \div 2 ELSE 0 IN [j \in 1 .. a - f |-> LatA(n, f + j)]
(* ---- the layout of every output: sequences of "z", "y", "x"; y is the global     *)
(* grid for the fields of the first stage, the northern rows in that mode otherwise *)
Global == {"qgpv", "interpolated_u", "interpolated_v", "interpolated_theta", "heating"}
Layer == {"ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term", "lwa", "lwa:only"}      \* ":only" is what compute_lwa_only leaves
Refs == {"qref", "uref", "ptref"}
Dims(o) == IF o \in Global \cup Layer THEN <<"z", "y", "x">> ELSE IF o \in Refs THEN <<"z", "y">>
           ELSE IF o = "static_stability" THEN <<"z">> ELSE <<"y", "x">>
RowsOf(o, n, nh) == IF nh /\ o \notin Global THEN NorthRows(n) ELSE n
ShapeOf(o, n, nh, K, m) == LET d == Dims(o) IN [x \in DOMAIN d |-> IF d[x] = "z" THEN K ELSE IF d[x] = "x" THEN m ELSE RowsOf(o, n, nh)]
FirstRow(o, n, nh) == IF nh /\ o \notin Global THEN NorthFirst(n) ELSE 1
(* the tuples of the stages *)
TupleOf(stage) == IF stage = "interp" THEN <<"qgpv", "interpolated_u", "interpolated_v", "interpolated_theta", "static_stability">>
                  ELSE IF stage = "ref" THEN <<"qref", "uref", "ptref">>
                  ELSE <<"adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux",
                         "divergence_eddy_momentum_flux", "meridional_heat_flux", "lwa_baro", "u_baro", "lwa">>
================================================================================
