---------------------------- MODULE Vertical_Judge ----------------------------
(* Judges the vertical interpolation and background profile of recorded runs. *)
(* A case: n user rows, na analysis rows, m columns; z heights of the input   *)
(* levels, zk of the output's; fld: sequence of fields [n, in, out] (levels x *)
(* rows x columns, one unit per field); for potential temperature `in` is T,  *)
(* and ex the factor (1000 hPa / p)^(R/cp).                                   *)
EXTENDS Vertical, Grid, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
Prop == IOEnv.VF_PROP

Table(f) == TLCEval([a \in DOMAIN f |-> TLCEval([j \in DOMAIN f[a] |-> TLCEval(f[a][j])])])
\* there and back between an even user's grid and its analysis grid
ThereAndBack(F, n) == LET A == ToUser(ToAnalysis(F, n), n)
                      IN  [j \in 1 .. n |-> [i \in DOMAIN F[1] |-> A[j][i] \div (n * (n - 1))]]
Warm(c, x) == IF ~ x.theta THEN x.in ELSE [l \in DOMAIN x.in |-> [j \in DOMAIN x.in[l] |-> [i \in DOMAIN x.in[l][j] |-> Mul(x.in[l][j][i], c.ex[l])]]]
OnUser(c, F) == IF Odd(c.n) THEN F ELSE [l \in DOMAIN F |-> ThereAndBack(F[l], c.n)]
OnAnalysis(c, F) == IF Odd(c.n) THEN F ELSE [l \in DOMAIN F |-> LET A == ToAnalysis(F[l], c.n)
                       IN  [j \in 1 .. c.na |-> [i \in 1 .. c.m |-> A[j][i] \div c.n]]]
Field(c, x) ==
  LET F == Table(OnUser(c, Table(Warm(c, x))))
      dom == (1 .. Len(c.zk)) \X (1 .. c.n) \X (1 .. c.m)
      Ok(p) == LET want == IF c.pre THEN F[p[1]][p[2]][p[3]]
                           ELSE Interp([l \in 1 .. Len(c.z) |-> F[l][p[2]][p[3]]], c.z, c.zk[p[1]], Mul, Div)
               IN  Close(want, x.out[p[1]][p[2]][p[3]], x.tol)
  IN  <<ForAll(x.n \o (IF c.pre THEN " is the input itself" ELSE " lies on the straight line between the neighbouring levels"), dom, Ok)>>
      \o (IF ~ x.theta THEN <<>> ELSE
          LET A == Table(OnAnalysis(c, Table(Warm(c, x))))
              Mean(l, south) == LET r == BackgroundRows(c.na, c.jd, south)
                                IN  Div(Weighted(A[l], c.c, r[1], r[2], c.m, Mul) \div 32, Weight(c.c, r[1], r[2]) \div 32)
          IN  <<ForAll("the scenario's hemispheric mean is the cubic", (1 .. Len(c.z)) \X BOOLEAN,
                  LAMBDA p : Close(Cubic(IF p[2] THEN c.ps ELSE c.pn, c.x[p[1]], Mul) * 2, Mean(p[1], p[2]) * c.pk, 256 * c.pk)),
                Clause("static stability is the slope of the hemispheric mean potential temperature",
                  (1 .. Len(c.zk)) \X DOMAIN c.st,
                  {p \in (1 .. Len(c.zk)) \X DOMAIN c.st :
                     LET S == CubicSlope(c.ps, c.xk[p[1]], Mul) N == CubicSlope(c.pn, c.xk[p[1]], Mul)
                         want == CASE c.st[p[2]].n = "south" -> S [] c.st[p[2]].n = "north" -> N [] OTHER -> (S + N) \div 2
                     IN  ~ Close(want, c.st[p[2]].v[p[1]], 24)})>>)
Clauses(c) == FlattenSeq([k \in 1 .. Len(c.fld) |-> Field(c, c.fld[k])])

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
===============================================================================
