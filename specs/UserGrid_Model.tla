---------------------------- MODULE UserGrid_Model ----------------------------
(* Fields on every kind of grid, changed one value at a time: what the round   *)
(* trip over the analysis grid promises.                                      *)
EXTENDS UserGrid, TLC
CONSTANTS Ns, VMax
VARIABLES g, n, F
vars == <<g, n, F>>
Init == g \in Kinds /\ n \in Ns /\ (Odd(n) => g = "poles") /\ F = [j \in 1 .. n |-> 0]
Next == UNCHANGED <<g, n>> /\ \E j \in 1 .. n, v \in 0 .. VMax : F' = [F EXCEPT ![j] = v]
Spec == Init /\ [][Next]_vars
A == Analysed(g, F, n)
Back == Shown(g, A, n)                 \* times Den * DenA
D == Den(g, n) * DenA(g, n)
HasEquator == LatA(n, Equator(NAnalysis(n))) = 0 /\ Len(A) = NAnalysis(n)
\* a line in latitude survives the way there, the way back, and both
Lines == \A a, b \in {0, 1, 3} :
   LET L == [j \in 1 .. n |-> a + b * Lat(g, n, j)]
       LA == [j \in 1 .. NAnalysis(n) |-> a + b * LatA(n, j)]
   IN  /\ \A j \in 1 .. NAnalysis(n) : Analysed(g, L, n)[j] = DenA(g, n) * LA[j]
       /\ \A j \in 1 .. n : Shown(g, LA, n)[j] = Den(g, n) * L[j]
\* what is shown lies between its neighbours on the analysis grid
Between == \A j \in 1 .. n : LET lo == A[j] hi == A[UpperRow(n, j)] d == Den(g, n)
   IN  IF lo <= hi THEN d * lo <= Back[j] /\ Back[j] <= d * hi ELSE d * hi <= Back[j] /\ Back[j] <= d * lo
\* the two hemispheres are treated alike
Rev(s) == [j \in 1 .. Len(s) |-> s[Len(s) + 1 - j]]
Alike == Analysed(g, Rev(F), n) = Rev(A) /\ Shown(g, Rev(A), n) = Rev(Back)
\* the northern rows need the northern half of the analysis grid only, which the mode without the south has
NorthAlone == \A A2 \in {[j \in 1 .. NAnalysis(n) |-> IF j < Equator(NAnalysis(n)) THEN x ELSE A[j]] : x \in {0, 7}} :
   \A j \in NorthFirst(n) .. n : Shown(g, A2, n)[j] = Back[j]
\* northern rows start at the equator, or at the first row north of it
NorthIsNorth == \A j \in 1 .. n : (j >= NorthFirst(n)) <=> (Lat(g, n, j) >= 0)
\* the latitudes of the analysis: mirror images from pole to pole, or from the equator to the pole
RefRows == LET G == RefLats(n, FALSE) N == RefLats(n, TRUE)
   IN  /\ Len(G) = NAnalysis(n) /\ Len(N) = (Len(G) + 1) \div 2 /\ N[1] = 0
       /\ \A j \in 1 .. Len(N) : N[j] = G[Len(G) - Len(N) + j] /\ G[Len(N) + 1 - j] = -N[j]
\* adding fields adds what is shown
Linear == \A k \in 1 .. n : LET E == [j \in 1 .. n |-> IF j = k THEN 1 ELSE 0] G == [j \in 1 .. n |-> F[j] + E[j]]
   IN  \A j \in 1 .. n : Shown(g, Analysed(g, G, n), n)[j] = Back[j] + Shown(g, Analysed(g, E, n), n)[j]
================================================================================
