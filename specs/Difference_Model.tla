---------------------------- MODULE Difference_Model ----------------------------
(* Every small field, reached by setting one cell after the other.               *)
EXTENDS Difference, FiniteSets
CONSTANTS N, M, V, Sets
VARIABLES f, left
vars == <<f, left>>
c == IF N = 3 THEN <<2, 4, 2>> ELSE <<0, 2, 2, 0>>
w == IF N = 3 THEN <<2, 1, 2>> ELSE <<0, 2, 2, 0>>
Init == f = [j \in 1 .. N |-> [i \in 1 .. M |-> 0]] /\ left = Sets
Next == left > 0 /\ left' = left - 1 /\ \E j \in 1 .. N, i \in 1 .. M, x \in V : x # f[j][i] /\ f' = [f EXCEPT ![j][i] = x]
Spec == Init /\ [][Next]_vars
R == 1 .. N  C == 1 .. M
Zero == [j \in R |-> [i \in C |-> 0]]
Rot(g) == [j \in R |-> [i \in C |-> g[j][Col(i + 1, M)]]]
Flip(g) == [j \in R |-> g[N + 1 - j]]
NoZonalMean == \A j \in R : Add(1, M, LAMBDA i : ZonalConv(f, w, M, j, i)) = 0
Rotates == \A j \in R, i \in C :
   /\ ZonalConv(Rot(f), w, M, j, i) = ZonalConv(f, w, M, j, Col(i + 1, M))
   /\ Curl(f, Rot(f), c, w, 3, 5, N, M, j, i) = Curl(f, Rot(f), c, w, 3, 5, N, M, j, i)
   /\ Curl(Rot(f), Rot(Rot(f)), c, w, 3, 5, N, M, j, i) = Curl(f, Rot(f), c, w, 3, 5, N, M, j, Col(i + 1, M))
Mirrors == \A j \in R, i \in C :
   /\ MeridDiv(Flip(f), c, w, N, j, i) = -MeridDiv(f, c, w, N, N + 1 - j, i)
   /\ Curl(Flip(f), Zero, c, w, 3, 5, N, M, j, i) = -Curl(f, Zero, c, w, 3, 5, N, M, N + 1 - j, i)
   /\ Curl(Zero, Flip(f), c, w, 3, 5, N, M, j, i) = Curl(Zero, f, c, w, 3, 5, N, M, N + 1 - j, i)
\* the curl of (u, v) is the convergence of -v and the divergence of -u put together
Stokes == \A j \in 2 .. N - 1, i \in C :
   Curl(f, Rot(f), c, w, 3, 5, N, M, j, i) = -12 * ZonalConv(Rot(f), w, M, j, i) - 5 * MeridDiv(f, c, w, N, j, i)
\* a flux proportional to 1/cos does not diverge
NoDivergence == (\A j \in R : c[j] > 0) => LET g == [j \in R |-> [i \in C |-> (4 \div c[j]) * f[1][i]]] IN \A j \in R, i \in C : MeridDiv(g, c, w, N, j, i) = 0
UniformStill == (\A i \in C, j \in R : f[j][i] = f[j][1]) => \A j \in R, i \in C : ZonalConv(f, w, M, j, i) = 0
\* the vertical: here a column is a row of the field
Straight == \A k \in C : M >= 2 => Vertical([i \in C |-> 3 * i + f[1][1]], M, k) = 6
Ends == M >= 3 => \A j \in R : Vertical(f[j], M, 1) + 2 * Vertical(f[j], M, 2) + Vertical(f[j], M, M) = 4 * (f[j][M] - f[j][1]) \/ M > 3
CovSym == \A j, k \in R : Cov(f[j], f[k]) = Cov(f[k], f[j]) /\ Cov(f[j], f[j]) >= 0 /\ Cov([i \in C |-> f[j][i] + 7], f[k]) = Cov(f[j], f[k])
Schwarz == \A j, k \in R : Cov(f[j], f[k]) * Cov(f[j], f[k]) <= Cov(f[j], f[j]) * Cov(f[k], f[k])
\* the two hemispheres share no row, and swap under reflection
Halves == \A h \in 1 .. N \div 2 : South(h, N) \cap North(h, N) = {} /\ WSum(f, f, South(h, N), M) = WSum(Flip(f), Flip(f), North(h, N), M)
                                  /\ Area(f, North(h, N), M) = Area(Flip(f), South(h, N), M)
EqMean == \A j \in R : LET eq == (N + 1) \div 2 IN N % 2 = 1 => Stab2(f[1], f[2], eq, j, 1) = Stab2(f[2], f[1], eq, N + 1 - j, 1)
=================================================================================
