--------------------------- MODULE Barotropic_Judge ---------------------------
(* Judges batches of real runs of falwa.basis, BarotropicField and the       *)
(* wrappers against Barotropic.  A run:                                      *)
(*   v, ar, w : field, areas, lengths (integers); np: partitions; y: the     *)
(*   latitudes in units of 180/65536 degrees; g (averaged quantity), f       *)
(*   (forcing); ns: extent of a hemisphere; sign                             *)
(*   res: sequence of [n |-> name, and q/brac (1/4096), lwa, def, exc, cap]  *)
(* Case: asn (table of latitudes by enclosed area), runs.                    *)
EXTENDS Barotropic, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
Prop == IOEnv.VF_PROP
U == 4096
Has(x, k) == k \in DOMAIN x

\* reference values of a sub-field: partition latitudes and values
Lats(c, v, ar, np) == LET b == Below(v, ar, np) IN [k \in 0 .. np - 1 |-> c.asn[b[k] + 1]]
Vals(v, np) == LET lo == VMin(v) hi == VMax(v) IN [k \in 0 .. np - 1 |-> (256 * Level(lo, hi, np, k)) \div (np - 1)]
RefOk(x, f, np, y, q4096) == Between(x, f, np - 1, y, (q4096 + 8) \div 16, 3)

R(c) == 1 .. Len(c.runs)
\* quantifies over runs, results having field k, and rows
On(c, name, k, Ok(_, _)) ==
  LET dom == {p \in R(c) \X (1 .. 12) : p[2] <= Len(c.runs[p[1]].res) /\ Has(c.runs[p[1]].res[p[2]], k)}
      bad == {p \in dom : ~ Ok(c.runs[p[1]], c.runs[p[1]].res[p[2]])}
  IN  [n |-> name, of |-> Cardinality(dom), bad |-> {<<p[1], c.runs[p[1]].res[p[2]].n>> : p \in bad}]

\* equal up to rounding
SameOk(r, s) == Len(s.same[1]) = Len(s.same[2]) /\ \A k \in 1 .. Len(s.same[1]) : Abs(s.same[1][k] - s.same[2][k]) <= 2

\* ---- C20: one sphere ---------------------------------------------------------------
RefRun(c, r) == [x |-> Lats(c, r.v, r.ar, r.np), f |-> Vals(r.v, r.np)]
C20(c) ==
  LET T == FoldLeft(LAMBDA acc, r : Append(acc, RefRun(c, r)), <<>>, c.runs)
      Ref(i, r, s) == \A j \in Rows(r.v) : RefOk(T[i].x, T[i].f, r.np, r.y[j], s.q[j])
      Mono(r, s) == \A j \in 1 .. Len(r.v) - 1 : s.q[j] <= s.q[j + 1] + 1
      InRange(r, s) == \A j \in Rows(r.v) : s.q[j] >= VMin(r.v) * U - 1 /\ s.q[j] <= VMax(r.v) * U + 1
      Brac(i, r, s) == LET b == Bracket(r.v, r.ar, r.g, r.np, 256)
                       IN  \A j \in Rows(r.v) : RefOk(T[i].x, b, r.np, r.y[j], s.brac[j])
      Fawa(i, r, s) ==
        LET v == [j \in Rows(r.v) |-> [x \in Cols(r.v) |-> r.v[j][x] + r.off]]
            cq == BelowSum(v, r.ar, r.np)
            n2 == 2 * Len(v[1])
        IN  /\ Len(s.fawa) = Len(v) - 1
            /\ \A j \in 2 .. Len(v) :
                 LET N == NorthOf(v, r.ar, j)
                     val == s.fawa[j - 1] - (IF r.fd < 16 THEN (4 * N) \div (n2 * r.fd) ELSE (4 * (N \div n2)) \div r.fd)      \* large fields are large sums
                 IN  Abs(val) <= 7800 /\ Between(T[i].x, [k \in 0 .. r.np - 1 |-> (4 * cq[k]) \div r.fd], r.np - 1, r.y[j], val, 5)
      OnI(name, k, Ok(_, _, _)) ==
         LET dom == {p \in R(c) \X (1 .. 12) : p[2] <= Len(c.runs[p[1]].res) /\ Has(c.runs[p[1]].res[p[2]], k)}
             bad == {p \in dom : ~ Ok(p[1], c.runs[p[1]], c.runs[p[1]].res[p[2]])}
         IN  [n |-> name, of |-> Cardinality(dom), bad |-> {<<p[1], c.runs[p[1]].res[p[2]].n>> : p \in bad}]
  IN  <<OnI("reference values interpolate the partition at the latitude enclosing the same area", "q", Ref),
        On(c, "reference values do not decrease with latitude", "q", Mono),
        On(c, "reference values stay in the field's range", "q", InRange),
        OnI("bracket averages interpolate the partition means", "brac", Brac),
        OnI("finite-amplitude wave activity is its defining sum", "fawa", Fawa),
        On(c, "default arguments mean what is documented", "same", SameOk)>>

\* ---- C21: wave activity with prescribed or own reference values ------------------------
Near(a, b, t) == Abs(a - b) <= t
WTol(r) == 1 + Sum(1, Len(r.w), LAMBDA m : r.w[m])
C21(c) ==
  LET LwaOk(r, s) == \A j \in Rows(r.v), i \in Cols(r.v) : Near(s.lwa[j][i], Wave(r.v, s.r, r.w, U, j, i), s.tol)
      DefOk(r, s) == \A j \in Rows(r.v), i \in Cols(r.v) :
          /\ Near(s.def[j][i], Deficit(r.v, s.r, r.w, U, j, i), s.tol) /\ s.def[j][i] >= 0
          /\ Near(s.exc[j][i], Excess(r.v, s.r, r.w, U, j, i), s.tol) /\ s.exc[j][i] >= 0
      NonNegOk(r, s) == \A j \in Rows(r.v), i \in Cols(r.v) : s.lwa[j][i] >= 0
      LastOk(r, s) == \A i \in Cols(r.v) : s.lwa[Len(r.v)][i] = 0
      CapOk(r, s) == \A j \in Rows(r.v), i \in Cols(r.v) :
          LET p == Project(r.v, s.r, r.w, U, r.f, j, i, s.tol) IN Near(s.cap[j][i], p.at, p.slack)
  IN  <<On(c, "wave activity is deficit beyond the row plus excess up to it", "lwa", LwaOk),
        On(c, "the two parts are the deficit and the excess, non-negative", "def", DefOk),
        On(c, "wave activity is non-negative", "lwa", NonNegOk),
        On(c, "the last row is zero", "lwa", LastOk),
        On(c, "the forcing is projected with the same masks", "cap", CapOk),
        On(c, "default arguments mean what is documented", "same", SameOk)>>

\* ---- C22: hemispheres ---------------------------------------------------------------------
C22(c) ==
  LET HRun(r) ==
        LET vs == South(r.v, r.ns)
            vn == NorthMirrored(r.v, r.ns, r.sign)
            as == South(r.ar, r.ns)
        IN  [vs |-> vs, vn |-> vn, as |-> as,
             xs |-> Lats(c, vs, as, r.np), fs |-> Vals(vs, r.np), xn |-> Lats(c, vn, as, r.np), fn |-> Vals(vn, r.np)]
      T == FoldLeft(LAMBDA acc, r : Append(acc, HRun(r)), <<>>, c.runs)
      n(r) == Len(r.v)
      \* rows of the south, of the north counted from the north pole, and of neither; a shared row belongs to neither
      SR(r) == {j \in 1 .. r.ns : j <= n(r) - r.ns}
      Out(r) == {j \in Rows(r.v) : j > r.ns /\ j <= n(r) - r.ns}
      QS(i, r, s) == \A j \in SR(r) : RefOk(T[i].xs, T[i].fs, r.np, r.y[j], s.q[j])
      QN(i, r, s) == \A j \in SR(r) : RefOk(T[i].xn, T[i].fn, r.np, r.y[j], r.sign * s.q[n(r) + 1 - j])
      BS(i, r, s) == LET b == Bracket(T[i].vs, T[i].as, South(r.g, r.ns), r.np, 256)
                     IN  \A j \in SR(r) : RefOk(T[i].xs, b, r.np, r.y[j], s.brac[j])
      BN(i, r, s) == LET b == Bracket(T[i].vn, T[i].as, NorthMirrored(r.g, r.ns, r.sign), r.np, 256)
                     IN  \A j \in SR(r) : RefOk(T[i].xn, b, r.np, r.y[j], r.sign * s.brac[n(r) + 1 - j])
      Sub(x, r) == NorthRows(x, r.ns)
      W1(r, v, q, w, out, off, tol) == \A j \in 1 .. r.ns, i \in Cols(r.v) :
           (j + off \in SR(r) \/ n(r) + 1 - (j + off) \in SR(r)) => Near(out[j + off][i], Wave(v, q, w, U, j, i), tol)
      LS(i, r, s) == W1(r, T[i].vs, South(s.r, r.ns), South(r.w, r.ns), s.lwa, 0, s.tol)
      LN(i, r, s) == W1(r, Sub(r.v, r), Sub(s.r, r), Sub(r.w, r), s.lwa, n(r) - r.ns, s.tol)
      P1(r, v, q, w, f, out, off, tol) == \A j \in 1 .. r.ns, i \in Cols(r.v) :
           (j + off \in SR(r) \/ n(r) + 1 - (j + off) \in SR(r)) =>
              LET p == Project(v, q, w, U, f, j, i, tol) IN Near(out[j + off][i], p.at, p.slack)
      PS(i, r, s) == P1(r, T[i].vs, South(s.r, r.ns), South(r.w, r.ns), South(r.f, r.ns), s.cap, 0, s.tol)
      PN(i, r, s) == P1(r, Sub(r.v, r), Sub(s.r, r), Sub(r.w, r), Sub(r.f, r), s.cap, n(r) - r.ns, s.tol)
      Zero(i, r, s) == \A j \in Out(r) :
           /\ (Has(s, "q") => s.q[j] = 0) /\ (Has(s, "brac") => s.brac[j] = 0)
           /\ \A x \in Cols(r.v) : (Has(s, "lwa") => s.lwa[j][x] = 0) /\ (Has(s, "cap") => s.cap[j][x] = 0)
      OnI(name, k, Ok(_, _, _)) ==
         LET dom == {p \in R(c) \X (1 .. 12) : p[2] <= Len(c.runs[p[1]].res) /\ Has(c.runs[p[1]].res[p[2]], k)}
             bad == {p \in dom : ~ Ok(p[1], c.runs[p[1]], c.runs[p[1]].res[p[2]])}
         IN  [n |-> name, of |-> Cardinality(dom), bad |-> {<<p[1], c.runs[p[1]].res[p[2]].n>> : p \in bad}]
  IN  <<OnI("southern reference values are those of the southern rows alone", "q", QS),
        OnI("northern reference values are those of the mirrored north", "q", QN),
        OnI("southern brackets are those of the southern rows alone", "brac", BS),
        OnI("northern brackets are those of the mirrored north", "brac", BN),
        OnI("southern wave activity is computed on the southern rows", "lwa", LS),
        OnI("northern wave activity is computed on the northern rows", "lwa", LN),
        OnI("southern forcing is projected on the southern rows", "cap", PS),
        OnI("northern forcing is projected on the northern rows", "cap", PN),
        OnI("rows outside both extents are zero", "n", Zero),
        On(c, "options select exactly the documented outputs", "keys", LAMBDA r, s : s.keys = s.want),
        On(c, "options do not alter the other outputs", "same", SameOk)>>

Clauses(c) == CASE Prop = "C20" -> C20(c) [] Prop = "C21" -> C21(c) [] Prop = "C22" -> C22(c)

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
