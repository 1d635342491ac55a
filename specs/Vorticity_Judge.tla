--------------------------- MODULE Vorticity_Judge ----------------------------
(* Judges recorded QGPV.  A case: n rows, m columns, levels; u, v, t (anomaly  *)
(* from its row's background), q per level; c, s; om, kv, ku; up, dn; rs, rn   *)
(* (smallest stability over that of each level, south and north background);   *)
(* cst: unit of stretching; eq the equator's row; zonal: NH18.                 *)
EXTENDS Vorticity, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)

Clauses(c) ==
  LET Rows == 1 .. c.n  Cols == 1 .. c.m  Lev == 2 .. c.levels - 1
      av == TLCEval([k \in 1 .. c.levels |-> IF k \notin Lev THEN <<>> ELSE TLCEval([j \in Rows |-> TLCEval([i \in Cols |->
               Vort(c.u[k], c.v[k], c.s, c.c, c.om, c.kv, c.ku, c.n, c.m, Mul, j, i)])])])
      fc == TLCEval([k \in 1 .. c.levels |-> IF k \notin Lev THEN <<>> ELSE TLCEval([j \in Rows |->
               Factor(c.zonal, c.u[k], c.v[k], c.s, c.c, c.om, c.kv, c.ku, c.n, c.m, Mul, j)])])
      r(j, k) == IF South(j, c.eq) THEN c.rs[k] ELSE c.rn[k]
      g == TLCEval([k \in 1 .. c.levels |-> TLCEval([j \in Rows |-> TLCEval([i \in Cols |-> Mul(c.t[k][j][i], r(j, k))])])])
      pv(p) == LET k == p[1] j == p[2] i == p[3]
                   str == Stretch([l \in 1 .. c.levels |-> g[l][j][i]], c.up, c.dn, Mul, k)
               IN  av[k][j][i] + 8 * Mul(Mul(str, c.cst), fc[k][j])
      got(p) == LET x == c.q[p[1]][p[2]][p[3]]
                IN  IF Abs(x) > 2 * ONE THEN 2147483647 \div 2 ELSE Mul(x, c.c[Next2Pole(p[2], c.n)])
      all == Lev \X Rows \X Cols
      poles == {p \in all : p[2] \in {1, c.n}}
      ends == {1, c.levels} \X Rows \X Cols
  IN  <<ForAll("QGPV is absolute vorticity plus stretching", all \ poles, LAMBDA p : Close(pv(p), got(p), c.tol)),
        ForAll("the pole rows hold the zonal-mean vorticity next to them, plus stretching", poles, LAMBDA p : Close(pv(p), got(p), c.tol)),
        ForAll("first and last level are zero", ends, LAMBDA p : c.q[p[1]][p[2]][p[3]] = 0)>>

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
================================================================================
