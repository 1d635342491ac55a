------------------------------- MODULE Vertical -------------------------------
(* Columns: from the input's levels to the uniform height grid, and the       *)
(* background profile.  M(a, b) multiplies, D(a, b) divides, M(a, D(b, c)) is *)
(* a*b/c in whichever arithmetic is used.                                     *)
EXTENDS Integers, Sequences

\* the pair of neighbouring input levels around the height zk (the end pair beyond the ends)
Bracket(z, zk) == CHOOSE b \in 1 .. Len(z) - 1 : (zk >= z[b] \/ b = 1) /\ (zk <= z[b + 1] \/ b = Len(z) - 1)
\* straight line between the two
Interp(x, z, zk, M(_, _), D(_, _)) ==
  LET b == Bracket(z, zk) IN x[b] + M(x[b + 1] - x[b], D(zk - z[b], z[b + 1] - z[b]))

\* cubic p[1] x^3 + p[2] x^2 + p[3] x + p[4] and its derivative, by Horner's rule
Cubic(p, x, M(_, _)) == M(M(M(p[1], x) + p[2], x) + p[3], x) + p[4]
CubicSlope(p, x, M(_, _)) == M(M(3 * p[1], x) + 2 * p[2], x) + p[3]

SumTo(n, Op(_)) == LET s[k \in 0 .. n] == IF k = 0 THEN 0 ELSE s[k - 1] + Op(k) IN s[n]
\* area-weighted mean over a set of rows lo..hi of m columns: weighted sum, and the sum of the weights
Weighted(f, c, lo, hi, m, M(_, _)) ==
  SumTo(hi - lo + 1, LAMBDA r : M(SumTo(m, LAMBDA i : f[lo + r - 1][i]) \div m, c[lo + r - 1]))
Weight(c, lo, hi) == SumTo(hi - lo + 1, LAMBDA r : c[lo + r - 1])
\* the rows whose mean is the background of a hemisphere: jd of them, counted from its pole
BackgroundRows(na, jd, south) == IF south THEN <<1, jd>> ELSE <<na - jd + 1, na>>
===============================================================================
