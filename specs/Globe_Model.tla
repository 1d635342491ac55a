------------------------------ MODULE Globe_Model ------------------------------
(* The hemisphere grows row by row from the equator, or towards it; its globe  *)
(* is monotonic and symmetric, holds every row once on each side, and is what  *)
(* mirroring the globe gives again.                                           *)
EXTENDS Globe, FiniteSets
CONSTANTS N, V
VARIABLES lat, v, away
vars == <<lat, v, away>>
Init == /\ lat = <<0>> /\ \E x \in V : v = <<x>> /\ away \in {<<s, e>> : s \in {-1, 1}, e \in {"first", "last"}}
Next == /\ Len(lat) < N
        /\ \E d \in 1 .. 2, x \in V :
             IF away[2] = "first" THEN lat' = Append(lat, lat[Len(lat)] + away[1] * d) /\ v' = Append(v, x)
             ELSE lat' = <<lat[1] + away[1] * d>> \o lat /\ v' = <<x>> \o v
        /\ UNCHANGED away
Spec == Init /\ [][Next]_vars
G == Globe(lat)
M == Len(G)
Size == M = 2 * Len(lat) - 1
Symmetric == \A j \in 1 .. M : G[j][1] = -G[M + 1 - j][1]
Monotonic == M > 1 => LET s == IF G[2][1] > G[1][1] THEN 1 ELSE -1 IN \A j \in 1 .. M - 1 : s * (G[j + 1][1] - G[j][1]) > 0
SameWay == Len(lat) > 1 => (G[2][1] > G[1][1]) = (lat[2] > lat[1])
OwnRows == \A j \in 1 .. Len(lat) : \E i \in 1 .. M : G[i] = <<lat[j], j, FALSE>>
Equator == Cardinality({j \in 1 .. M : G[j][1] = 0}) = 1
Parity == \A j \in 1 .. M : LET x == Value(G[j], v, TRUE) y == Value(G[M + 1 - j], v, TRUE)
                            IN  IF G[j][1] = 0 THEN x = y ELSE x = -y
Even == \A j \in 1 .. M : Value(G[j], v, FALSE) = Value(G[M + 1 - j], v, FALSE)
\* the other half, extended in turn, is the same globe up to the sign of odd quantities at the equator
Half(s) == IF lat[1] = 0 THEN SubSeq(s, 1, Len(lat)) ELSE SubSeq(s, Len(lat), M)
Again == LET h == Half([j \in 1 .. M |-> G[j][1]])
             w == Half([j \in 1 .. M |-> Value(G[j], v, TRUE)])
             G2 == Globe(h)
         IN  /\ Len(G2) = M
             /\ \A j \in 1 .. M : G2[j][1] = G[j][1] /\ Value(G2[j], w, TRUE) = Value(G[j], v, TRUE)
================================================================================
