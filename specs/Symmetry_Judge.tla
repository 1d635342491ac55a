---------------------------- MODULE Symmetry_Judge ----------------------------
(* Judges pairs of real runs: the original (a) and the transformed (b).      *)
(* Case: tr, nlat, nlon, d (shift), levels, out (names), nh (both runs       *)
(* northern only), shared (see Symmetry), a, b: [name |-> nested arrays of fixed-point integers in  *)
(* units of a scale common to both runs].                                    *)
EXTENDS Symmetry, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
Prop == IOEnv.VF_PROP

\* tolerated rounding: single precision sums in another order, amplified by the PV inversion; where there are many cells,
\* some are within rounding of the edge of a partition and may be counted on either side
Tol(c) == CASE c.tr = "north" -> ONE \div 65536
            [] c.tr \in {"mirror", "rotate"} -> IF c.nlat * c.nlon > 450 THEN ONE \div 64 ELSE ONE \div 512

Promised(c, n) ==
  LET nr == IF Outputs[n].glob \/ ~ c.nh THEN c.nlat ELSE NorthRows(c.nlat)
  IN  CASE c.tr = "rotate" -> 1 .. nr
        [] c.tr = "mirror" -> MirrorRows(n, c.nlat, nr, c.shared)
        [] c.tr = "north"  -> NorthJudged(n, c.nlat, Outputs[n].glob, c.shared)

Judge(c, n) ==
  LET o == Outputs[n]
      X == c.a
      Y == c.b[n]
      rows == Promised(c, n)
      nl == IF o.dims = "z" \/ o.dims = "zy" \/ o.dims = "zyx" THEN c.levels ELSE 1
      S(j, i) == Src(c.tr, n, c.nlat, c.nlon, c.d, j, i)
      Ok3(k, j, i) == LET s == S(j, i) IN Close(Y[k][j][i], s.sign * X[s.out][k][s.j][s.i], Tol(c))
      Ok2(j, i) == LET s == S(j, i) IN Close(Y[j][i], s.sign * X[s.out][s.j][s.i], Tol(c))
      OkZY(k, j) == LET s == S(j, 1) IN Close(Y[k][j], s.sign * X[s.out][k][s.j], Tol(c))
      OkZ(k) == LET s == S(1, 1) IN Close(Y[k], s.sign * X[s.out][k], Tol(c))
      shape == CASE o.dims = "zyx" -> Len(Y) = nl /\ \A k \in 1 .. nl : Len(Y[k]) >= Cardinality(rows) /\ \A j \in rows : Len(Y[k][j]) = c.nlon
                 [] o.dims = "yx" -> \A j \in rows : Len(Y[j]) = c.nlon
                 [] OTHER -> Len(Y) = nl
  IN  IF ~ shape THEN Holds(n \o ": shape", FALSE)
      ELSE CASE o.dims = "zyx" -> ForAll(n, (1 .. nl) \X rows \X (1 .. c.nlon), LAMBDA p : Ok3(p[1], p[2], p[3]))
             [] o.dims = "yx" -> ForAll(n, rows \X (1 .. c.nlon), LAMBDA p : Ok2(p[1], p[2]))
             [] o.dims = "zy" -> ForAll(n, (1 .. nl) \X rows, LAMBDA p : OkZY(p[1], p[2]))
             [] o.dims = "z" -> ForAll(n, 1 .. nl, LAMBDA k : OkZ(k))

Clauses(c) == [i \in 1 .. Len(c.out) |-> Judge(c, c.out[i])]

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
