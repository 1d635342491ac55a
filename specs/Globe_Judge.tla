------------------------------ MODULE Globe_Judge ------------------------------
(* A case: lat in 1/64 degree (the equator within 1e-4 of 0), outcome, and for *)
(* the result: glat, the latitudes; rows, per variable with a latitude axis    *)
(* the identities plus[j], minus[j] of its rows and of their negatives, and of  *)
(* the rows of the result; odd, whether it is the meridional wind; kept, facts  *)
(* about everything else.  Or wave: rows of wave activity of a globe made that  *)
(* way (fixed point), which mirror each other.                                 *)
EXTENDS Globe, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
ok(c) ==
  LET G == Globe(c.lat)
      M == Len(G)
      X == 1 .. Len(c.rows)
  IN  IF Len(c.glat) # M THEN <<Holds("both hemispheres are there, the equator once", FALSE)>>
      ELSE <<Holds("both hemispheres are there, the equator once", TRUE),
        ForAll("latitudes are the input's and their opposites, in order", 1 .. M, LAMBDA j : c.glat[j] = G[j][1])>>
      \o [x \in X |-> ForAll(c.rows[x].n \o (IF c.rows[x].odd THEN " is mirrored and negated" ELSE " is mirrored"), 1 .. M,
             LAMBDA j : Len(c.rows[x].out) = M
                        /\ c.rows[x].out[j] = IF G[j][3] /\ c.rows[x].odd THEN c.rows[x].minus[G[j][2]] ELSE c.rows[x].plus[G[j][2]])]
      \o <<ForAll("all else is kept", DOMAIN c.kept, LAMBDA k : c.kept[k])>>
Clauses(c) ==
  IF "wave" \in DOMAIN c
  THEN LET n == Len(c.wave) IN <<ForAll("wave activity is the same on both hemispheres, away from the equator", {j \in 1 .. n : 2 * j < n - 6},
         LAMBDA j : \A i \in 1 .. Len(c.wave[1]) : Close(c.wave[j][i], c.wave[n + 1 - j][i], 2048))>>
  ELSE <<Holds("refused without an equator row, and only then", c.outcome = IF HasEquator(c.lat) THEN "ok" ELSE "AssertionError")>>
       \o (IF c.outcome = "ok" /\ HasEquator(c.lat) THEN ok(c) ELSE <<>>)
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
================================================================================
