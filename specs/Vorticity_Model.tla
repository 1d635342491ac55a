--------------------------- MODULE Vorticity_Model ----------------------------
(* Wind and temperature impulses dropped one at a time on a resting planet of *)
(* five rows: what the vorticity and the stretching owe to each of them.      *)
EXTENDS Vorticity, FiniteSets, TLC
CONSTANTS MX, Drops
N == 5
Rows == 1 .. N
Cols == 1 .. MX
Inner == 2 .. N - 1
C == <<0, 1, 2, 1, 0>>                    \* stand-ins for cosine and sine: even and odd about the equator
S == <<-3, -2, 0, 2, 3>>
Om == 10
Times(a, b) == a * b
VARIABLES u, v, left
vars == <<u, v, left>>
Zero == [j \in Rows |-> [i \in Cols |-> 0]]
Init == u = Zero /\ v = Zero /\ left = Drops
U(j, i, d) == u' = [u EXCEPT ![j][i] = @ + d] /\ UNCHANGED v
V(j, i, d) == v' = [v EXCEPT ![j][i] = @ + d] /\ UNCHANGED u
Next == /\ left > 0 /\ left' = left - 1
        /\ \E j \in Rows, i \in Cols, d \in {-1, 2} : U(j, i, d) \/ V(j, i, d)
Spec == Init /\ [][Next]_vars
A(a, b, j, i) == Vort(a, b, S, C, Om, 1, 1, N, MX, Times, j, i)
\* an impulse is felt by its neighbours only: the wind u in the rows next to it in the same column, v along its row
Local == [][\A j \in Inner, i \in Cols :
   (/\ \A e \in {-1, 1} : u'[j + e][i] = u[j + e][i]
    /\ \A d \in {Around(i + 1, MX), Around(i - 1 + MX, MX)} : v'[j][d] = v[j][d])
   => A(u', v', j, i) = A(u, v, j, i)]_vars
\* v has no zonal-mean vorticity; the mean is planetary plus the shear of the mean wind
ZonalMean == \A j \in Inner :
   Plus(1, MX, LAMBDA i : A(u, v, j, i)) =
     MX * Om * S[j] * C[j] - Plus(1, MX, LAMBDA i : u[j + 1][i] * C[j + 1] - u[j - 1][i] * C[j - 1])
\* Stokes: the cap beyond two adjacent rows has the circulation of its edges
Stokes == Plus(2, N - 1, LAMBDA j : Plus(1, MX, LAMBDA i : A(u, v, j, i) - Om * S[j] * C[j]))
            = Plus(1, MX, LAMBDA i : u[2][i] * C[2] + u[1][i] * C[1] - u[N - 1][i] * C[N - 1] - u[N][i] * C[N])
\* mirror image: v changes sign, so does the vorticity
Mirrored == LET um == [j \in Rows |-> u[N + 1 - j]] vm == [j \in Rows |-> [i \in Cols |-> -v[N + 1 - j][i]]]
            IN  \A j \in Inner, i \in Cols : A(um, vm, N + 1 - j, i) = -A(u, v, j, i)
\* rotation in longitude
Rotated == LET ur == [j \in Rows |-> [i \in Cols |-> u[j][Around(i + 1, MX)]]]
               vr == [j \in Rows |-> [i \in Cols |-> v[j][Around(i + 1, MX)]]]
           IN  \A j \in Inner, i \in Cols : A(ur, vr, j, i) = A(u, v, j, Around(i + 1, MX))
\* poles are single-valued
Poles == \A i \in Cols : A(u, v, 1, i) = A(u, v, 1, 1) /\ A(u, v, N, i) = A(u, v, N, 1)
\* a temperature that is the background everywhere has no stretching, and stretching is linear in the anomaly
ASSUME NoAnomaly == \A k \in 2 .. 4 : Stretch([l \in 1 .. 5 |-> 0], 3, 1, Times, k) = 0
ASSUME Linear == \A g, h \in [1 .. 3 -> -1 .. 1] :
   Stretch([l \in 1 .. 3 |-> 2 * g[l] - 3 * h[l]], 3, 1, Times, 2) = 2 * Stretch(g, 3, 1, Times, 2) - 3 * Stretch(h, 3, 1, Times, 2)
================================================================================
