-------------------------- MODULE Barotropic_Model --------------------------
(* All fields on a tiny sphere, rearranged in every way that keeps areas.    *)
EXTENDS Barotropic, TLC
CONSTANTS NR, NC, Vals, NPs

VARIABLES v, v0
vars == <<v, v0>>
W == [j \in 1 .. NR |-> 1 + Min2(j - 1, NR - j)]              \* areas: larger towards the equator
Ar == [j \in 1 .. NR |-> [i \in 1 .. NC |-> W[j]]]
M == CellSum(Ar, LAMBDA j, i : Ar[j][i])
Fields == [1 .. NR -> [1 .. NC -> Vals]]

Init == v \in Fields /\ v0 = v
\* exchange two cells of equal area
Swap(p, q) == /\ Ar[p[1]][p[2]] = Ar[q[1]][q[2]] /\ p # q
              /\ v' = [v EXCEPT ![p[1]][p[2]] = v[q[1]][q[2]], ![q[1]][q[2]] = v[p[1]][p[2]]]
              /\ UNCHANGED v0
Next == \E p, q \in (1 .. NR) \X (1 .. NC) : Swap(p, q)
Spec == Init /\ [][Next]_vars

Map(x, F(_)) == [j \in 1 .. NR |-> [i \in 1 .. NC |-> F(x[j][i])]]
\* cumulative area is a distribution: non-decreasing from 0, at most M minus the area of the maximum
Distribution == \A np \in NPs : LET b == Below(v, Ar, np)
   IN  /\ b[0] = 0 /\ \A k \in 1 .. np - 1 : b[k - 1] <= b[k]
       /\ b[np - 1] = M - CellSum(v, LAMBDA j, i : IF v[j][i] = VMax(v) THEN Ar[j][i] ELSE 0)
\* rearrangement keeps it
Rearranged == \A np \in NPs : Below(v, Ar, np) = Below(v0, Ar, np)
\* adding a constant and scaling by a positive factor act on the levels only
Affine == \A np \in NPs : Below(Map(v, LAMBDA x : 3 * x - 5), Ar, np) = Below(v, Ar, np)
\* the interpolated reference value lies in the range and does not decrease
Bounds(np) ==  \* least and greatest reference value allowed at each latitude
  LET b == Below(v, Ar, np)
      lo == VMin(v)
      hi == VMax(v)
      x == TLCEval([k \in 0 .. np - 1 |-> 8 * b[k]])
      f == TLCEval([k \in 0 .. np - 1 |-> (4 * Level(lo, hi, np, k)) \div (np - 1)])
  IN  [m \in 0 .. M - 1 |-> LET s == TLCEval({q \in 4 * lo .. 4 * hi : Between(x, f, np - 1, 8 * m + 3, q, 1)})
                            IN  [e |-> s # {}, lo |-> CHOOSE q \in s : \A r \in s : q <= r, hi |-> CHOOSE q \in s : \A r \in s : q >= r]]
MonotoneRef == v = v0 => \A np \in NPs :
  LET t == TLCEval(Bounds(np)) IN \A m \in 0 .. M - 2 : t[m].e /\ t[m].hi <= t[m + 1].lo + 4
\* wave activity: non-negative parts, zero for a zonally symmetric field that increases northwards against itself
NonNeg == \A r \in [1 .. NR -> Vals] : \A j \in 1 .. NR, i \in 1 .. NC :
    /\ Deficit(v, r, W, 1, j, i) >= 0 /\ Excess(v, r, W, 1, j, i) >= 0
    /\ (j = NR => Wave(v, r, W, 1, j, i) = 0)
Zonal == \A j \in 1 .. NR : \A i \in 1 .. NC : v[j][i] = v[j][1]
Increasing == \A j \in 1 .. NR - 1 : v[j][1] <= v[j + 1][1]
ZeroWave == (Zonal /\ Increasing) => \A j \in 1 .. NR, i \in 1 .. NC : Wave(v, [m \in 1 .. NR |-> v[m][1]], W, 1, j, i) = 0
\* the forcing projection is linear, and projecting the field's own displacement gives the wave activity
Self == \A r \in [1 .. NR -> Vals] : \A j \in 1 .. NR, i \in 1 .. NC :
    Project(v, r, W, 1, Map(v, LAMBDA x : x - r[j]), j, i, 0).at = Wave(v, r, W, 1, j, i)
\* hemispheric mirror: the mirrored, negated field has the mirrored, negated hemispheres
Flip == [j \in 1 .. NR |-> [i \in 1 .. NC |-> -v[NR + 1 - j][i]]]
Hemi == \A n \in 1 .. NR \div 2 : /\ NorthMirrored(v, n, -1) = South(Flip, n)
                                  /\ NorthMirrored(Flip, n, -1) = South(v, n)
=============================================================================
