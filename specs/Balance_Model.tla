----------------------------- MODULE Balance_Model -----------------------------
(* A small hemisphere in exact integers: the reference wind is built up row   *)
(* by row and level by level, and the temperature is integrated from it.      *)
(* What balance entails for every wind reachable this way.                    *)
EXTENDS Balance, TLC
CONSTANTS N, K
Rows == 1 .. N
Lev == 1 .. K
Times(a, b) == a * b
S == [j \in Rows |-> j - 1]
C == [j \in Rows |-> N - j]
X == [k \in Lev |-> k]
VARIABLES u, T
vars == <<u, T>>
Zero == [k \in Lev |-> [j \in Rows |-> 0]]
\* as the code does: two interleaved recursions from the two lowest rows, then a shift to the wanted mean
Raw(v) == [k \in Lev |-> IF k \in {1, K} THEN [j \in Rows |-> 0] ELSE
   LET t[j \in Rows] == IF j <= 2 THEN 0 ELSE t[j - 2] + ThermalWind(v, S, X, 1, Times, k, j - 1) IN t]
Init == u = Zero /\ T = Raw(Zero)
Set(k, j, d) == u' = [u EXCEPT ![k][j] = d] /\ T' = Raw(u')
Next == \E k \in 2 .. K, j \in 2 .. N - 1, d \in {-1, 1} : u[k][j] # d /\ Set(k, j, d)
Spec == Init /\ [][Next]_vars
Inner == 2 .. N - 1
Mid == 2 .. K - 1
Balanced == \A k \in Mid, j \in Inner : ThermalResidual(u, T, S, X, 1, Times, k, j) = 0
\* a shift of the whole level keeps the balance, so the mean may be prescribed
Shift == [k \in Lev |-> [j \in Rows |-> T[k][j] + 7 * k]]
ShiftKeeps == \A k \in Mid, j \in Inner : ThermalResidual(u, Shift, S, X, 1, Times, k, j) = 0
MeanMoves == \A k \in Mid : MeanSum(Shift[k], C, 1, N, Times) = MeanSum(T[k], C, 1, N, Times) + 7 * k * WeightSum(C, 1, N)
\* no shear, no contrast
Barotropic == (\A k \in Mid, j \in Inner : u[k + 1][j] = u[k - 1][j]) => \A k \in Mid, j \in Rows : T[k][j] = 0
(* The elliptic operator of a closed box (all coefficients one) telescopes:    *)
(* its sum is what crosses the edges, and a uniform wind has none of it.       *)
One == [x \in 1 .. 9 |-> 1]
E(w, k, j) == Elliptic(w, One, One, One, One, Times, k, j)
SumIn(F(_, _)) == LET a[k \in 1 .. K] == IF k = 1 THEN 0 ELSE IF k = K THEN a[k - 1] ELSE
                        a[k - 1] + LET b[j \in Rows] == IF j = 1 THEN 0 ELSE IF j = N THEN b[j - 1] ELSE b[j - 1] + F(k, j) IN b[N]
                  IN  a[K]
EdgesOnly == SumIn(LAMBDA k, j : E(u, k, j)) =
    SumIn(LAMBDA k, j : (IF j = N - 1 THEN u[k][N] - u[k][N - 1] ELSE 0) - (IF j = 2 THEN u[k][2] - u[k][1] ELSE 0)
                      + (IF k = K - 1 THEN u[K][j] - u[K - 1][j] ELSE 0) - (IF k = 2 THEN u[2][j] - u[1][j] ELSE 0))
UniformIsFree == \A k \in Mid, j \in Inner : E([x \in Lev |-> [y \in Rows |-> 5]], k, j) = 0
\* maximum principle: without source the wind has no strict interior maximum
NoBump == (\A k \in Mid, j \in Inner : E(u, k, j) = 0) =>
   ~ \E k \in Mid, j \in Inner : \A e \in {-1, 1} : u[k][j] > u[k][j + e] /\ u[k][j] > u[k + e][j]
================================================================================
