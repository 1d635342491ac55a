----------------------------- MODULE Budget_Model -----------------------------
(* Stirring a hemisphere: the PV of one level starts zonally symmetric and    *)
(* increasing poleward and any two cells of equal area may exchange their     *)
(* values.  The reference state (the initial rows) never changes; what the    *)
(* wave activity of every reachable state promises is proved exhaustively.    *)
EXTENDS Budget, FiniteSets
CONSTANTS N, MX, Far          \* rows, columns; Far: exchange any two cells, else neighbours only
VARIABLE q
vars == <<q>>
Rows == 1 .. N
Cols == 1 .. MX
Times(a, b) == a * b
Q == [j \in Rows |-> 2 * j]                 \* strictly increasing poleward
C1 == [j \in Rows |-> 1]                    \* equal areas
CW == [j \in Rows |-> N + 1 - j]            \* shrinking towards the pole
Zonal == [j \in Rows |-> [i \in Cols |-> Q[j]]]
Init == q = Zonal
Cells == Rows \X Cols
Near(a, b) == (a[1] = b[1] /\ (a[2] + 1 = b[2] \/ (a[2] = MX /\ b[2] = 1))) \/ (a[2] = b[2] /\ a[1] + 1 = b[1])
Swap(a, b) == q' = [q EXCEPT ![a[1]][a[2]] = q[b[1]][b[2]], ![b[1]][b[2]] = q[a[1]][a[2]]]
Next == \E a \in Cells, b \in Cells :
           /\ a # b /\ (Far \/ Near(a, b)) /\ q[a[1]][a[2]] # q[b[1]][b[2]]
           /\ Swap(a, b)
Spec == Init /\ [][Next]_vars

W(c, j, i) == Wave(q, Q, c, N, Times, j, i)
\* wave activity is never negative, whatever the weights, and is its two parts
NonNegative == \A j \in Rows, i \in Cols, c \in {C1, CW} :
   /\ W(c, j, i) >= 0
   /\ WaveCyc(q, Q, c, N, Times, j, i) >= 0 /\ WaveAnti(q, Q, c, N, Times, j, i) >= 0
   /\ W(c, j, i) = WaveCyc(q, Q, c, N, Times, j, i) + WaveAnti(q, Q, c, N, Times, j, i)
\* the zonal sum at a row is the difference of two circulations (finite-amplitude wave activity)
Kelvin == \A j \in Rows, c \in {C1, CW} :
   Total(1, MX, LAMBDA i : W(c, j, i)) =
     Total(1, MX, LAMBDA i : Total(1, N, LAMBDA jj : IF q[jj][i] > Q[j] THEN (q[jj][i] - Q[j]) * c[jj] ELSE 0))
     - Total(1, MX, LAMBDA i : Total(j, N, LAMBDA jj : (q[jj][i] - Q[j]) * c[jj]))
\* it vanishes exactly when nothing is displaced
ZeroIffUnstirred == (\A j \in Rows, i \in Cols : W(C1, j, i) = 0) <=> q = Zonal
\* the area-preserving rearrangement is conserved: as many cells poleward of a row as cells with at least its value
AreaBalance == \A j \in Rows : Cardinality({p \in Cells : q[p[1]][p[2]] >= Q[j]}) = MX * (N + 1 - j)
\* the forcing projection is linear, a uniform unit forcing measures the net displaced area: zero over a row
Nc1 == [j \in Rows |-> [i \in Cols |-> j + i]]
Nc2 == [j \in Rows |-> [i \in Cols |-> j * i - 3]]
ForcingLinear == \A j \in Rows, i \in Cols :
   Forced(q, Q, [r \in Rows |-> [x \in Cols |-> 2 * Nc1[r][x] - 3 * Nc2[r][x]]], CW, N, Times, j, i)
     = 2 * Forced(q, Q, Nc1, CW, N, Times, j, i) - 3 * Forced(q, Q, Nc2, CW, N, Times, j, i)
\* a forcing equal to the PV excess itself projects onto the wave activity
ForcingOfExcess == \A j \in Rows, i \in Cols :
   Forced(q, Q, [r \in Rows |-> [x \in Cols |-> q[r][x] - Q[j]]], CW, N, Times, j, i) = W(CW, j, i)
\* solid-body eddies (u proportional to the cosine, as the reference) carry no third-order flux
SolidBody == \A j \in Rows, i \in Cols :
   NonlinFlux(q, Q, [r \in Rows |-> [x \in Cols |-> 3 * CW[r]]], [r \in Rows |-> 3 * CW[r]], CW, N, Times, j, i) = 0
\* rotation in longitude carries everything along
Rotates == LET r == [j \in Rows |-> [i \in Cols |-> q[j][WrapX(i - 1 + MX, MX)]]]
           IN  \A j \in Rows, i \in Cols : Wave(r, Q, CW, N, Times, j, WrapX(i + 1, MX)) = W(CW, j, i)
\* a periodic centred difference sums to zero around the circle, and sees no constant
ASSUME ZeroZonalSum == \A m \in 3 .. 5 : \A f \in [1 .. m -> -1 .. 2] :
   /\ Total(1, m, LAMBDA i : Centred(f, m, i)) = 0
   /\ (\A i \in 1 .. m : Centred([x \in 1 .. m |-> f[x] + 7], m, i) = Centred(f, m, i))
\* the density-weighted column of a vertical derivative telescopes to its end layers: the layerwise stretching
\* terms sum to the low-level heat flux (and the one aloft)
ASSUME Telescopes == LET K == 5 wt(k) == 2 ^ (K - k) IN
   \A g \in [1 .. K -> -1 .. 1] :
      Total(2, K - 1, LAMBDA k : wt(k + 1) * g[k + 1] - wt(k - 1) * g[k - 1])
        = wt(K) * g[K] + wt(K - 1) * g[K - 1] - wt(2) * g[2] - wt(1) * g[1]
===============================================================================
