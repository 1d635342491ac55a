---------------------------- MODULE Rearrange_Model ----------------------------
(* Every PV field on a little globe: cells are set to any value, or exchanged  *)
(* along a latitude circle.  The reference computed by counting has all the    *)
(* properties promised of it.                                                 *)
EXTENDS Rearrange, TLC, FiniteSets
CONSTANTS MX, VMax
A == <<1, 2, 1>>                       \* row areas from pole to pole
Rows == 1 .. 3
Cols == 1 .. MX
\* areas poleward of the latitudes asked for: up to half the globe
Caps == 0 .. 2 * MX
VARIABLES q, last
vars == <<q, last>>
Fields == q
Init == q = [j \in Rows |-> [i \in Cols |-> IF j = 3 THEN VMax ELSE 0]] /\ last = "init"
Set(j, i, v) == q[j][i] # v /\ q' = [q EXCEPT ![j][i] = v] /\ last' = "set"
Exchange(j, i, k) == i < k /\ q[j][i] # q[j][k] /\ q' = [q EXCEPT ![j][i] = q[j][k], ![j][k] = q[j][i]] /\ last' = "exchange"
Next == \E j \in Rows, i \in Cols : (\E v \in 0 .. VMax : Set(j, i, v)) \/ (\E k \in Cols : Exchange(j, i, k))
Spec == Init /\ [][Next]_vars
Values == {q[j][i] : j \in Rows, i \in Cols}
Top == CHOOSE v \in Values : \A x \in Values : x <= v
Bot == CHOOSE v \in Values : \A x \in Values : x >= v
\* partitions of width dq reaching from top to bottom
Widths == {d \in 1 .. VMax : (Top - Bot) % d = 0}
P(d) == (Top - Bot) \div d + 1
\* latitudes with an answer: the topmost partition is not counted, so not every area is reached
Asked(d) == {cap \in Caps : Counted(q, A, Top, d, P(d)) > cap}
R(d, cap) == Reference(q, A, Top, d, P(d), cap)
InRange == Top > Bot => \A d \in Widths : \A cap \in Asked(d) :
   LET r == R(d, cap) IN r.den > 0 /\ Bot * r.den <= r.num /\ r.num <= Top * r.den
Monotone == Top > Bot => \A d \in Widths : \A x, y \in Asked(d) :
   x <= y => LET r == R(d, x) s == R(d, y) IN r.num * s.den >= s.num * r.den
AreaBounds == Top > Bot => \A d \in Widths : \A cap \in Asked(d) :
   LET r == R(d, cap)
       big == [j \in Rows |-> [i \in Cols |-> q[j][i] * r.den]]      \* everything times the denominator
   IN  NotTooMuchAbove(big, A, r.num, cap, Top * r.den, d * r.den, 0) /\ EnoughAbove(big, A, r.num, cap, Top * r.den, d * r.den, 0)
AtQ(f, d, cap) == Reference(f, A, Top, d, P(d), cap)
\* exchanging values along a latitude circle changes nothing
ExchangeFree == [][last' = "exchange" => \A d \in Widths : \A cap \in Asked(d) : AtQ(q', d, cap) = AtQ(q, d, cap)]_vars
\* adding a constant adds it
Shifted == Top > Bot => \A d \in Widths : \A cap \in Asked(d) :
   LET s == Reference([j \in Rows |-> [i \in Cols |-> q[j][i] + 5]], A, Top + 5, d, P(d), cap) r == R(d, cap)
   IN  s.num = r.num + 5 * r.den /\ s.den = r.den
================================================================================
