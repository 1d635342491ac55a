------------------------------- MODULE Rearrange -------------------------------
(* The reference state of PV: the value for every latitude such that the area *)
(* of larger PV is the area poleward of it.  q[j][i] cells of row weight a[j]; *)
(* the field is resolved by P partitions between its extremes.                *)
EXTENDS Integers, Sequences
AddUp(lo, hi, Op(_)) ==
  LET s[x \in (lo - 1) .. hi] == IF x < lo THEN 0 ELSE s[x - 1] + Op(x)
  IN  IF hi < lo THEN 0 ELSE s[hi]
\* area (in units of a) of the cells that satisfy P
AreaOf(q, a, P(_)) ==
  AddUp(1, Len(q), LAMBDA j : a[j] * AddUp(1, Len(q[j]), LAMBDA i : IF P(q[j][i]) THEN 1 ELSE 0))
Above(q, a, x) == AreaOf(q, a, LAMBDA v : v > x)

(* What "to within the resolution of the partition" means for a reference     *)
(* value r of a row with the area cap poleward of it; dq is the width of a     *)
(* partition, top the largest value; e forgives rounding of values.            *)
NotTooMuchAbove(q, a, r, cap, top, dq, e) == Above(q, a, r + e) - Above(q, a, top - dq - e) <= cap
EnoughAbove(q, a, r, cap, top, dq, e) == cap <= Above(q, a, r - 2 * dq - e) - Above(q, a, top - dq + e)

(* One way to find it: count areas in partitions from the top (the topmost    *)
(* is left out of the count), interpolate between the partitions' values.     *)
(* The result is the fraction num/den.                                        *)
PartOf(v, top, dq) == 1 + (top - v) \div dq
Counted(q, a, top, dq, n) == AreaOf(q, a, LAMBDA v : PartOf(v, top, dq) \in 2 .. n)
Reference(q, a, top, dq, P, cap) ==
  LET n == CHOOSE n \in 1 .. P - 1 : Counted(q, a, top, dq, n) <= cap /\ Counted(q, a, top, dq, n + 1) > cap
      lo == Counted(q, a, top, dq, n)  hi == Counted(q, a, top, dq, n + 1)
  IN  [num |-> (top - dq * (n - 1)) * (hi - lo) - dq * (cap - lo), den |-> hi - lo]
================================================================================
