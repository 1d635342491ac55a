----------------------------- MODULE Storage_Model -----------------------------
(* Every way of storing an array that MaxSteps steps lead to.                   *)
EXTENDS Storage, TLC, Json
CONSTANTS MaxSteps
VARIABLES s, did
V0 == [c \in Cells |-> 100 * (10 * c[1] + c[2] + 1)]
Init == s = Lay(V0, 0, <<12, 4>>, 4, FALSE, FALSE, FALSE) /\ did = <<>>
Next == Len(did) < MaxSteps /\ \E x \in Steps : s' = Do(s, x) /\ did' = Append(did, x)
Spec == Init /\ [][Next]_<<s, did>>
SameValues == Value(s) = V0
Sound == InBounds(s) /\ NoOverlap(s)
\* a layout step keeps the type, a type step leaves a plain array
Kinds == \A x \in {"rows", "columns", "sample", "updown", "reversed", "shifted"} :
           LET t == Do(s, x) IN t.width = s.width /\ t.high = s.high /\ t.whole = s.whole /\ ~ t.frozen
Undone == Value(RowMajor(s)) = Value(s) /\ Flags(Double(s)) = [rowmajor |-> TRUE, columnmajor |-> FALSE, aligned |-> TRUE, native |-> TRUE,
                                                               whole |-> FALSE, writable |-> TRUE, single |-> FALSE]
Twice == Swapped(Swapped(s)).high = s.high
Emit == PrintT("REQ|" \o ToJson([steps |-> did, flags |-> Flags(s)]))
================================================================================
