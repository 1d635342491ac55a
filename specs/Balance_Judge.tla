----------------------------- MODULE Balance_Judge -----------------------------
(* Judges recorded reference states.  A case holds hemispheres h: n rows from  *)
(* equator to pole, levels, jb, own (the equator row is this hemisphere's),    *)
(* nh18; u; T and tb (zonal-mean temperature), less one value per level; t0    *)
(* (prescribed background, NHN22); q (PV reference over 2 Omega); c, s; sh, ch *)
(* sine and cosine half a row poleward; x = e^{kappa z/H}, xh half a level up, *)
(* up, dn = e^{+-dz/2H}; st stability; units kA, kF, kt, kz, g.                *)
EXTENDS Balance, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
Tag(h, t) == (IF h.south THEN "south: " ELSE "north: ") \o t
Fn(dom, F(_)) == TLCEval([x \in dom |-> F(x)])

Hemi(h) ==
  LET n == h.n  K == h.levels  b == h.jb  Lev == 1 .. K  Rows == 1 .. n  Mid == 2 .. K - 1
      w == Fn(Lev, LAMBDA k : Fn(Rows, LAMBDA j : Mul(h.u[k][j], h.c[j])))
      wz == Fn(Lev, LAMBDA k : Fn(Rows, LAMBDA j : w[k][j] \div h.gz))
      \* PV over the Coriolis parameter; the equator by extrapolation
      Q == Fn(Lev, LAMBDA k : IF k \notin Mid THEN <<>> ELSE
              LET v == Fn(Rows, LAMBDA j : IF j = 1 THEN 0 ELSE Div(h.q[k][j], h.s[j]))
              IN  [v EXCEPT ![1] = 2 * v[2] - v[3]])
      A == Fn(Rows, LAMBDA j : IF j \in {1, n} THEN 0 ELSE Div(Div(Mul(Div(h.c[j], h.ch[j]), h.kA), h.s[j]), h.sh[j]))
      B == Fn(Rows, LAMBDA j : IF j \in {1, n} THEN 0 ELSE Div(Div(Mul(Div(h.c[j], h.ch[j - 1]), h.kA), h.s[j]), h.sh[j - 1]))
      smin == MinOver({h.st[k] : k \in Lev}, LAMBDA x : x)
      Cv == Fn(Lev, LAMBDA k : IF k \notin Mid THEN 0 ELSE Mul(Mul(h.dn, h.xh[k]), Div(smin, (h.st[k] + h.st[k + 1]) \div 2)) \div h.g)
      Dv == Fn(Lev, LAMBDA k : IF k \notin Mid THEN 0 ELSE Mul(Mul(h.up, h.xh[k - 1]), Div(smin, (h.st[k] + h.st[k - 1]) \div 2)) \div h.g)
      r == Fn(Rows, LAMBDA j : IF j = 1 THEN 0 ELSE Div(Mul(h.kF, h.c[j]), h.s[j]))
      first == IF h.nh18 \/ (b = 0 /\ ~ h.own) THEN 3 ELSE b + 2      \* first row whose neighbour is known
      \* the equator row shows the southern solution in global runs: the north's own is what balance requires
      T == Fn(Lev, LAMBDA k : IF h.own \/ b > 0 \/ k \notin Mid THEN h.T[k]
              ELSE [h.T[k] EXCEPT ![1] = h.T[k][3] - ThermalWind(h.u, h.s, h.x, h.kt, Mul, k, 2)])
      mean(k) == IF h.nh18 THEN Div(MeanSum(h.tb[k], h.c, 1, n, Mul) \div 16, WeightSum(h.c, 1, n) \div 16) ELSE h.t0[k]
      shown == IF h.own THEN b + 1 ELSE Max2(2, b + 1)                \* first row of the end levels
      step == IF h.nh18 THEN 2 ELSE 1
  IN  <<ForAll(Tag(h, "the reference temperature is in thermal wind balance with the reference wind"), Mid \X (b + 2 .. n - 1),
           LAMBDA p : Close(ThermalResidual(h.u, T, h.s, h.x, h.kt, Mul, p[1], p[2]), 0, h.tolT)),
        ForAll(Tag(h, "the reference temperature has the mean of the hemisphere"), Mid,
           LAMBDA k : Close(MeanSum(T[k], h.c, b + 1, n, Mul) \div 16, Mul(mean(k), WeightSum(h.c, b + 1, n) \div 16), h.tolM)),
        ForAll(Tag(h, "the end levels repeat their neighbour about their own mean"), {<<1, 2>>, <<K, K - 1>>} \X (shown .. n),
           LAMBDA p : Close(h.T[p[1][1]][p[2]] - mean(p[1][1]), h.T[p[1][2]][p[2]] - mean(p[1][2]), h.tolM)),
        ForAll(Tag(h, "the reference wind inverts the reference PV"), Mid \X (first .. n - 1),
           LAMBDA p : Close(Elliptic(w, A, B, Cv, Dv, Mul, p[1], p[2]), Source(Q, r, Mul, p[1], p[2]), h.tolE)),
        Holds(Tag(h, "the residual of the inversion is within the tolerance asked for"),
           Sum(2, K - 1, LAMBDA k : Sum(first, n - 1, LAMBDA j : Abs(Elliptic(w, A, B, Cv, Dv, Mul, k, j) - Source(Q, r, Mul, k, j))))
             <= Mul(h.eps, Sum(2, K - 1, LAMBDA k : Sum(2, n - 1, LAMBDA j : Abs(Source(Q, r, Mul, k, j) \div 8)))) * 8 + 8 * n * K),
        ForAll(Tag(h, "no reference wind at the lowest level"), (IF h.nh18 THEN 2 ELSE IF h.own THEN b + 1 ELSE Max2(b + 1, 2)) .. n,
           LAMBDA j : h.u[1][j] = 0),
        ForAll(Tag(h, "the top obeys thermal wind with the zonal-mean temperature"), b + 2 .. n - 1,
           LAMBDA j : Close(TopResidual(wz, h.tb[IF h.nh18 THEN K - 1 ELSE K], h.s, h.c, h.kz, step, K, Mul, j), 0, h.tolZ)),
        ForAll(Tag(h, "the pole row continues the two rows before it"), Lev,
           LAMBDA k : Close(h.u[k][n], 2 * h.u[k][n - 1] - h.u[k][n - 2], 8))>>
      \o (IF h.nh18 THEN <<ForAll(Tag(h, "the equator row has the zonal-mean wind"), Lev, LAMBDA k : Close(h.u[k][1], h.ub[k], 8))>>
          ELSE IF b = 0 THEN <<>>
          ELSE <<ForAll(Tag(h, "no reference wind or temperature equatorward of the boundary"), Lev \X (1 .. b),
                    LAMBDA p : h.u[p[1]][p[2]] = 0 /\ h.z[p[1]][p[2]])>>)

Clauses(c) == FlattenSeq([x \in 1 .. Len(c.h) |-> Hemi(c.h[x])])
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
================================================================================
