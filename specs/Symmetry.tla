------------------------------ MODULE Symmetry ------------------------------
(* How every output of a QG field answers a transformation of its input:     *)
(* rotation in longitude, reflection about the equator, restriction to the   *)
(* Northern Hemisphere.                                                      *)
EXTENDS Grid, FiniteSets

(* dims: z levels, y latitudes, x longitudes; glob: covers the globe also in
   northern-hemisphere-only mode; par: parity under reflection               *)
O(dims, glob, par) == [dims |-> dims, glob |-> glob, par |-> par]
Outputs ==
  [qgpv |-> O("zyx", TRUE, -1), interpolated_u |-> O("zyx", TRUE, 1), interpolated_v |-> O("zyx", TRUE, -1),
   interpolated_theta |-> O("zyx", TRUE, 1),
   qref |-> O("zy", FALSE, -1), uref |-> O("zy", FALSE, 1), ptref |-> O("zy", FALSE, 1),
   adv_flux_f1 |-> O("yx", FALSE, 1), adv_flux_f2 |-> O("yx", FALSE, 1), adv_flux_f3 |-> O("yx", FALSE, 1),
   convergence_zonal_advective_flux |-> O("yx", FALSE, 1), divergence_eddy_momentum_flux |-> O("yx", FALSE, 1),
   meridional_heat_flux |-> O("yx", FALSE, 1), flux_vector_lambda_baro |-> O("yx", FALSE, 1),
   flux_vector_phi_baro |-> O("yx", FALSE, -1), lwa_baro |-> O("yx", FALSE, 1), u_baro |-> O("yx", FALSE, 1),
   ncforce_baro |-> O("yx", FALSE, 1), lwa |-> O("zyx", FALSE, 1),
   ua1 |-> O("zyx", FALSE, 1), ua2 |-> O("zyx", FALSE, 1), ep1 |-> O("zyx", FALSE, 1),
   ep2 |-> O("zyx", FALSE, -1), ep3 |-> O("zyx", FALSE, -1), stretch_term |-> O("zyx", FALSE, 1),
   stat_n |-> O("z", TRUE, 1), stat_s |-> O("z", TRUE, 1), stat |-> O("z", TRUE, 1)]

\* reflection exchanges north and south: the flux one row poleward/equatorward, the hemispheric stabilities
Twin(n) == CASE n = "ep2" -> "ep3" [] n = "ep3" -> "ep2" [] n = "stat_n" -> "stat_s" [] n = "stat_s" -> "stat_n"
             [] OTHER -> n

(* Rows on which the answer is promised (nr rows of an output, user's grid of n rows).  With the analysis
   boundary on the equator itself ("shared": NHN22 with boundary index 0), the two hemispheres have different
   reference winds on the one equator row; what is formed from its neighbour across that row is not promised. *)
ReadsAcross == {"ep2", "ep3", "divergence_eddy_momentum_flux"}
NearEquator(n) == IF Odd(n) THEN Equator(n) - 1 .. Equator(n) + 1 ELSE (n \div 2) - 1 .. (n \div 2) + 2
MirrorRows(o, n, nr, shared) ==
  {j \in 1 .. nr : /\ IF Odd(n) THEN j # Equator(n) ELSE j \notin {n \div 2, n \div 2 + 1}
                   /\ ~ (shared /\ o \in ReadsAcross /\ j \in NearEquator(n))}
NorthJudged(o, n, glob, shared) ==              \* the equator row / first northern row excluded
  IF glob THEN 1 .. n ELSE (IF shared /\ o \in ReadsAcross THEN 3 ELSE 2) .. NorthRows(n)

(* Source of element (row j, column i) of output n after the transformation, in the original. *)
Src(tr, n, nlat, nlon, d, j, i) ==
  CASE tr = "rotate" -> [out |-> n, j |-> j, i |-> Wrap(i - d, nlon), sign |-> 1]
    [] tr = "mirror" -> [out |-> Twin(n), j |-> FlipRow(j, nlat), i |-> i, sign |-> Outputs[n].par]
    [] tr = "north"  -> [out |-> n, j |-> IF Outputs[n].glob THEN j ELSE j + NorthFirst(nlat) - 1, i |-> i, sign |-> 1]
=============================================================================
