---------------------------- MODULE Vertical_Model ----------------------------
(* One column on four unevenly spaced levels and a row of hemispheres whose   *)
(* cells are set one at a time.  The arithmetic is exact: values are multiples *)
(* of 12 and quotients are kept in twelfths.                                   *)
EXTENDS Vertical, FiniteSets, TLC
Lv == 1 .. 4
Z == <<0, 2, 6, 10>>                      \* heights of the input's levels
Targets == 0 .. 11                        \* heights asked for (one beyond the top)
Vals == {0, 12, 24}
Times(a, b) == (a * b) \div 12
Over(a, b) == (12 * a) \div b
VARIABLES x, f
vars == <<x, f>>
Rows == 1 .. 5
Out(col) == [t \in Targets |-> Interp(col, Z, t, Times, Over)]
Init == x = [l \in Lv |-> 0] /\ f = [j \in Rows |-> <<0, 0>>]
SetLevel(l, v) == x' = [x EXCEPT ![l] = v] /\ UNCHANGED f
SetCell(j, i, v) == f' = [f EXCEPT ![j][i] = v] /\ UNCHANGED x
Next == \/ (\A j \in Rows : f[j] = <<0, 0>>) /\ \E l \in Lv, v \in Vals : SetLevel(l, v)
        \/ x = [l \in Lv |-> 0] /\ \E j \in Rows, i \in 1 .. 2, v \in {0, 2} : SetCell(j, i, v)
Spec == Init /\ [][Next]_vars

Nodes == \A l \in Lv : Interp(x, Z, Z[l], Times, Over) = x[l]
Between == \A t \in 0 .. 10 :
   LET b == Bracket(Z, t) o == Interp(x, Z, t, Times, Over)
   IN  (x[b] <= o /\ o <= x[b + 1]) \/ (x[b + 1] <= o /\ o <= x[b])
\* second differences vanish inside each layer
Straight == \A t \in 1 .. 10 : t \notin {2, 6, 10} => LET o == Out(x) IN o[t + 1] - 2 * o[t] + o[t - 1] = 0
LinearExact == \A a \in {0, 12}, b \in {-12, 24} :
   \A t \in Targets : Interp([l \in Lv |-> a + b * Z[l]], Z, t, Times, Over) = a + b * t
\* a level is felt only by the heights strictly between its two neighbours
Local == [][\A l \in Lv : (x'[l] # x[l]) =>
             \A t \in 0 .. 10 : (l > 1 /\ t <= Z[l - 1]) \/ (l < 4 /\ t >= Z[l + 1]) => Out(x')[t] = Out(x)[t]]_vars
\* hemispheric means
Wts == <<1, 2, 3, 2, 1>>
Prod(a, b) == a * b
Mean(south, jd, g) == LET r == BackgroundRows(5, jd, south) IN Weighted(g, Wts, r[1], r[2], 2, Prod)
\* cells poleward of the rows averaged in the other hemisphere do not matter to this one
Hemispheric == \A jd \in 1 .. 3 : LET g == [j \in Rows |-> IF j <= 5 - jd THEN <<7, 9>> ELSE f[j]]
                                 IN  Mean(FALSE, jd, f) = Mean(FALSE, jd, g)
MirrorMean == \A jd \in 1 .. 3 : Mean(TRUE, jd, [j \in Rows |-> f[6 - j]]) = Mean(FALSE, jd, f)
MeanOfConstant == \A jd \in 1 .. 3 : Mean(TRUE, jd, [j \in Rows |-> <<4, 4>>]) = 4 * Weight(Wts, 1, jd)
\* the slope is the derivative: central differences of a cubic exceed it by the leading coefficient
ASSUME Slope == \A p \in [1 .. 4 -> -1 .. 2], t \in -2 .. 3 :
   Cubic(p, t + 1, Prod) - Cubic(p, t - 1, Prod) = 2 * CubicSlope(p, t, Prod) + 2 * p[1]
===============================================================================
