----------------------------- MODULE Barotropic -----------------------------
(* Equivalent latitude and local wave activity of one field on the sphere    *)
(* (falwa.basis, BarotropicField and the wrappers).  Values and areas are    *)
(* integers; the sphere has area M.  Fields are sequences of rows, south to  *)
(* north.                                                                    *)
EXTENDS VF

Rows(v) == 1 .. Len(v)
Cols(v) == 1 .. Len(v[1])
Cells(v) == Rows(v) \X Cols(v)
VMin(v) == MinOver(Cells(v), LAMBDA p : v[p[1]][p[2]])
VMax(v) == MaxOver(Cells(v), LAMBDA p : v[p[1]][p[2]])
CellSum(v, F(_, _)) == Sum(1, Len(v), LAMBDA j : Sum(1, Len(v[1]), LAMBDA i : F(j, i)))

(* ---- partitions: np values from the least to the greatest, evenly spaced ------
   Level k (0 .. np-1), times np-1 to stay in the integers.                       *)
Level(lo, hi, np, k) == lo * (np - 1) + k * (hi - lo)
\* area where the field is below level k
Below(v, ar, np) ==
  LET lo == VMin(v)
      hi == VMax(v)
  IN  [k \in 0 .. np - 1 |-> CellSum(v, LAMBDA j, i : IF v[j][i] * (np - 1) < Level(lo, hi, np, k) THEN ar[j][i] ELSE 0)]

(* ---- reference value ------------------------------------------------------------
   The latitude Lat[A] encloses the area A (counted from the south pole) of the M
   of the sphere.  At latitude y the reference value lies on the line between the
   two neighbouring partitions; beyond the last one it is the greatest value.
   x[k], k in 0..np-1 are the partition's latitudes, f[k] their values; Between
   says that val is the interpolated value, to `tol` units.  Where latitudes of
   several partitions coincide any value between theirs is allowed.               *)
Between(x, f, n, y, val, tol) ==
  \E k \in 0 .. n :
    /\ x[k] <= y + 1
    /\ (k = n \/ x[k + 1] >= y - 1)
    /\ IF k = n THEN Abs(val - f[n]) <= tol
       ELSE LET d == x[k + 1] - x[k]
            IN  IF d <= 2 THEN /\ val >= Min2(f[k], f[k + 1]) - tol
                              /\ val <= Max2(f[k], f[k + 1]) + tol
                ELSE /\ Abs(val - f[k]) <= 32768              \* nothing is farther; keeps the product in range
                     /\ Abs((val - f[k]) * d - (f[k + 1] - f[k]) * (y - x[k])) <= tol * d + 2 * Abs(f[k + 1] - f[k])

(* ---- bracket average -------------------------------------------------------------- *)
\* area-weighted mean of g over the partition below level k (0 if empty), times U
PartMean(v, ar, g, np, k, U) ==
  LET lo == VMin(v)
      hi == VMax(v)
      In(j, i) == k > 0 /\ v[j][i] * (np - 1) < Level(lo, hi, np, k) /\ v[j][i] * (np - 1) >= Level(lo, hi, np, k - 1)
      a == CellSum(v, LAMBDA j, i : IF In(j, i) THEN ar[j][i] ELSE 0)
      s == CellSum(v, LAMBDA j, i : IF In(j, i) THEN ar[j][i] * g[j][i] ELSE 0)
  IN  IF a = 0 THEN 0 ELSE (s * U) \div a
Bracket(v, ar, g, np, U) ==
  LET m == [k \in 0 .. np - 1 |-> PartMean(v, ar, g, np, k, U)]
  IN  [k \in 0 .. np - 1 |-> IF k = 0 \/ k = np - 1 THEN 0 ELSE (m[k - 1] + m[k + 1]) \div 2]

(* ---- finite-amplitude wave activity --------------------------------------------------
   Minus the sum, over 2 pi a, of the integral of the zonal mean from the north down to
   the row (trapezoidal between rows) and of the field below the row's reference value
   (between partitions as the reference value itself).  Row 1 has none.                  *)
Rim(v, ar, j) == Sum(1, Len(v[1]), LAMBDA i : v[j][i]) * Sum(1, Len(v[1]), LAMBDA i : ar[j][i])       \* times the number of columns
NorthOf(v, ar, j) == Sum(j, Len(v) - 1, LAMBDA m : Rim(v, ar, m) + Rim(v, ar, m + 1))                 \* times twice that
BelowSum(v, ar, np) ==
  LET lo == VMin(v)
      hi == VMax(v)
  IN  [k \in 0 .. np - 1 |-> CellSum(v, LAMBDA j, i : IF v[j][i] * (np - 1) < Level(lo, hi, np, k) THEN ar[j][i] * v[j][i] ELSE 0)]

(* ---- local wave activity ------------------------------------------------------------
   Row j against the prescribed reference values r (U units of the field each): the
   deficit north of the row and the excess up to and including it, times the length w. *)
Deficit(v, r, w, U, j, i) ==
  IF j = Len(v) THEN 0
  ELSE Sum(j + 1, Len(v), LAMBDA m : IF v[m][i] * U < r[j] THEN (r[j] - v[m][i] * U) * w[m] ELSE 0)
Excess(v, r, w, U, j, i) ==
  IF j = Len(v) THEN 0
  ELSE Sum(1, j, LAMBDA m : IF v[m][i] * U > r[j] THEN (v[m][i] * U - r[j]) * w[m] ELSE 0)
Wave(v, r, w, U, j, i) == Deficit(v, r, w, U, j, i) + Excess(v, r, w, U, j, i)
\* projection of a forcing with the same masks; cells within tol of the reference value are undecided
Project(v, r, w, U, g, j, i, tol) ==
  LET T(m) == IF m <= j THEN (IF v[m][i] * U > r[j] THEN g[m][i] * w[m] ELSE 0)
                        ELSE (IF v[m][i] * U < r[j] THEN -g[m][i] * w[m] ELSE 0)
      sl(m) == IF tol > 0 /\ Abs(v[m][i] * U - r[j]) <= tol THEN Abs(g[m][i] * w[m]) ELSE 0
  IN  IF j = Len(v) THEN [at |-> 0, slack |-> 0]
      ELSE [at |-> Sum(1, Len(v), T), slack |-> Sum(1, Len(v), sl)]

(* ---- hemispheres ----------------------------------------------------------------------- *)
South(v, n) == [j \in 1 .. n |-> v[j]]
NorthRows(v, n) == [j \in 1 .. n |-> v[Len(v) - n + j]]
\* the north seen from the south: rows mirrored, values times sign
NorthMirrored(v, n, sign) == [j \in 1 .. n |-> [i \in Cols(v) |-> sign * v[Len(v) + 1 - j][i]]]
=============================================================================
