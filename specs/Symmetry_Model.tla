--------------------------- MODULE Symmetry_Model ---------------------------
(* Every field on a tiny grid, transformed in every way: the defining        *)
(* operations of the analysis commute with the transformations, so the       *)
(* table in Symmetry follows from the definitions.                           *)
EXTENDS Symmetry, VF

CONSTANTS NL, NX, Vals

VARIABLES f, g, word        \* the original field, the transformed field, the transformation so far
vars == <<f, g, word>>
Fields == [1 .. NL -> [1 .. NX -> Vals]]

Init == f \in Fields /\ g = f /\ word = [d |-> 0, m |-> 1]
Rotate == g' = Shift(g, 1) /\ word' = [word EXCEPT !.d = (@ + 1) % NX] /\ UNCHANGED f
Reflect == g' = Mirror(g, 1) /\ word' = [word EXCEPT !.m = -@] /\ UNCHANGED f
Next == Rotate \/ Reflect
Spec == Init /\ [][Next]_vars

Act(x, w, par) == LET s == Shift(x, w.d) IN IF w.m = 1 THEN s ELSE Mirror(s, par)

(* ---- the operations ------------------------------------------------------------- *)
CosW(j) == 1 + Min2(j - 1, NL - j)                 \* any mirror-symmetric weight
DX(x) == [j \in 1 .. NL |-> [i \in 1 .. NX |-> x[j][Wrap(i + 1, NX)] - x[j][Wrap(i - 1, NX)]]]
DY(x) == [j \in 1 .. NL |-> [i \in 1 .. NX |-> IF j \in {1, NL} THEN 0 ELSE x[j + 1][i] - x[j - 1][i]]]
NorthOf(x) == [j \in 1 .. NL |-> [i \in 1 .. NX |-> x[Min2(j + 1, NL)][i]]]
SouthOf(x) == [j \in 1 .. NL |-> [i \in 1 .. NX |-> x[Max2(j - 1, 1)][i]]]
Neg(x) == [j \in DOMAIN x |-> [i \in DOMAIN x[j] |-> -x[j][i]]]
Mean(x) == [j \in 1 .. NL |-> Sum(1, NX, LAMBDA i : x[j][i])]
\* PV displacement of an odd field about the reference value r: hemisphere of row j seen from its pole
H == HemiRows(NL)
HN(x) == [j \in 1 .. H |-> [i \in 1 .. NX |-> x[NL - H + j][i]]]          \* equator to pole
HS(x) == [j \in 1 .. H |-> [i \in 1 .. NX |-> -x[H + 1 - j][i]]]          \* southern rows, mirrored and negated
LW(h, r, w(_)) == [j \in 1 .. H |-> [i \in 1 .. NX |->
    Sum(1, H, LAMBDA jj : IF jj >= j THEN (IF h[jj][i] <= r[j] THEN (r[j] - h[jj][i]) * w(jj) ELSE 0)
                                      ELSE (IF h[jj][i] > r[j] THEN (h[jj][i] - r[j]) * w(jj) ELSE 0))]]
Ref(h) == [j \in 1 .. H |-> MaxOver({<<jj, i>> : jj \in 1 .. j, i \in 1 .. NX}, LAMBDA p : h[p[1]][p[2]])]
HW(j) == CosW(NL - H + j)
AN(x) == LW(HN(x), Ref(HN(x)), HW)
AS(x) == LW(HS(x), Ref(HS(x)), HW)

(* ---- theorems ------------------------------------------------------------------------ *)
IsAction == g = Act(f, word, 1)
Order == Shift(Mirror(f, 1), word.d) = Mirror(Shift(f, word.d), 1)
DXEven == DX(g) = Act(DX(f), word, 1)
DYOdd == DY(g) = Act(DY(f), word, -1)
OneRow == /\ NorthOf(g) = Act(IF word.m = 1 THEN NorthOf(f) ELSE SouthOf(f), word, 1)
          /\ SouthOf(g) = Act(IF word.m = 1 THEN SouthOf(f) ELSE NorthOf(f), word, 1)
MeanFixed == Mean(g) = IF word.m = 1 THEN Mean(f) ELSE [j \in 1 .. NL |-> Mean(f)[NL + 1 - j]]
\* an odd field (PV) transformed: its waves in one hemisphere are the other's
gq == Act(f, word, -1)
WaveNorth == AN(gq) = Shift(IF word.m = 1 THEN AN(f) ELSE AS(f), word.d)
WaveSouth == AS(gq) = Shift(IF word.m = 1 THEN AS(f) ELSE AN(f), word.d)
NonNeg == \A j \in 1 .. H, i \in 1 .. NX : AN(g)[j][i] >= 0
\* restriction commutes with rotation
Restricts == word.m = 1 => North(g) = Shift(North(f), word.d)
\* the table is closed under the group: reflecting twice is the identity
ASSUME TableOK == \A n \in DOMAIN Outputs : /\ Twin(Twin(n)) = n
                                            /\ Outputs[n].par = Outputs[Twin(n)].par
                                            /\ Outputs[n].dims = Outputs[Twin(n)].dims
ASSUME SrcOK == \A n \in DOMAIN Outputs, j \in 1 .. NL, i \in 1 .. NX :
   LET a == Src("mirror", n, NL, NX, 0, j, i)
       b == Src("mirror", a.out, NL, NX, 0, a.j, a.i)
   IN  b = [out |-> n, j |-> j, i |-> i, sign |-> a.sign] /\ a.sign * b.sign = 1
ASSUME RowsOK == \A n \in 3 .. 12, sh \in BOOLEAN, o \in {"ep2", "ep3", "uref", "divergence_eddy_momentum_flux"} :
  /\ MirrorRows(o, n, n, sh) = {FlipRow(j, n) : j \in MirrorRows(o, n, n, sh)}
  /\ \A j \in NorthJudged(o, n, FALSE, sh) : j + NorthFirst(n) - 1 \in MirrorRows(o, n, n, sh)
  /\ NorthFirst(n) + NorthRows(n) - 1 = n
\* Src is the index form of Shift and Mirror
SrcField == \A j \in 1 .. NL, i \in 1 .. NX :
   LET r == Src("rotate", "lwa_baro", NL, NX, word.d, j, i)
   IN  g[j][i] = (IF word.m = 1 THEN f[r.j][r.i] ELSE f[FlipRow(r.j, NL)][r.i])
=============================================================================
