--------------------------- MODULE Constructor_Model ---------------------------
(* Requests reached from a good one by editing it, and the generator of the    *)
(* requests that are made of the real constructors.                            *)
EXTENDS Constructor, TLC, Json
CONSTANTS MaxEdits
VARIABLES r, edits
vars == <<r, edits>>
M == 4  K == 5
Good(n, pre) == [n |-> n, m |-> M, L |-> K, lat |-> "up", zeros |-> n % 2, lev |-> "down", pre |-> pre, top |-> 16 * (K - 1) + (IF pre THEN 0 ELSE 7),
                 kmax |-> K - 1, shape |-> [f \in Fields |-> <<K, n, M>>], masked |-> {}]
Init == \E n \in {5, 6}, pre \in BOOLEAN : r = Good(n, pre) /\ edits = 0
Shapes(s) == {<<s[1] - 1, s[2], s[3]>>, <<s[1] + 1, s[2], s[3]>>, <<1, s[2], s[3]>>, <<s[1], s[2] - 1, s[3]>>, <<s[1], s[2] + 1, s[3]>>,
              <<s[1], 1, s[3]>>, <<s[1], s[2], s[3] - 1>>, <<s[1], s[2], s[3] + 1>>, <<s[1], s[2], 1>>, <<s[3], s[2], s[1]>>, <<s[1], s[3], s[2]>>,
              <<s[2], s[1], s[3]>>, <<s[2], s[3]>>, <<s[3]>>, <<1, s[1], s[2], s[3]>>, <<s[1], s[2], s[3], 1>>, <<>>}
Edit(x) == r' = x /\ edits' = edits + 1
Turn == Edit([r EXCEPT !.lat = IF @ = "up" THEN "down" ELSE "up"])
Flip == Edit([r EXCEPT !.lev = IF @ = "up" THEN "down" ELSE "up"])
\* an even grid with a single equator row is not spoken of
Equators == \E z \in (0 .. 2) : z # r.zeros /\ (r.n % 2 = 0 => z # 1) /\ Edit([r EXCEPT !.zeros = z])
Resize == \E f \in Fields : \E s \in Shapes(Shape(r)) : Edit([r EXCEPT !.shape[f] = s])
Longer == \E d \in {-1, 1} : LET x == [r EXCEPT !.m = r.m + d] IN Edit(x)            \* the longitudes alone
Taller == \E k \in {2, K - 2, K, K + 1, K + 2, 99} : k # r.kmax /\ Edit([r EXCEPT !.kmax = k])
Higher == ~ r.pre /\ \E t \in {16 * (K - 1) - 1, 16 * (K - 1) + 1, 16 * K - 1, 16 * K + 1} : t # r.top /\ Edit([r EXCEPT !.top = t])
Mask == \E x \in Fields \cup {"y"} : x \notin r.masked /\ Edit([r EXCEPT !.masked = @ \cup {x}])
Next == edits < MaxEdits /\ (Turn \/ Flip \/ Equators \/ Resize \/ Longer \/ Taller \/ Higher \/ Mask)
Spec == Init /\ [][Next]_vars
(* ---- what follows ------------------------------------------------------------ *)
StartsGood == edits = 0 => Outcomes(r) = {"ok"}
SomeOutcome == Outcomes(r) # {} /\ ("ok" \in Outcomes(r) => Outcomes(r) = {"ok"})
\* the largest kmax allowed is allowed, the next is not
Maximum == Faults(r) \subseteq {"kmax"} /\ ~ r.pre =>
   /\ Outcomes([r EXCEPT !.kmax = MaxKmax(r)]) = {"ok"}
   /\ Outcomes([r EXCEPT !.kmax = MaxKmax(r) + 1]) = {"ValueError"}
\* masks never decide
MaskFree == \A x \in SUBSET (Fields \cup {"y"}) : Outcomes([r EXCEPT !.masked = x]) = Outcomes(r)
\* a smaller kmax is never refused when a larger is accepted
Downward == \A k \in 2 .. r.kmax : Outcomes(r) = {"ok"} => Outcomes([r EXCEPT !.kmax = k]) = {"ok"}
Emit == PrintT("REQ|" \o ToJson(r))
================================================================================
