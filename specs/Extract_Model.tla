----------------------------- MODULE Extract_Model -----------------------------
(* Extractions from extractions: the file in hand holds steps of the first one,  *)
(* those that one extraction with the positions followed back would give.        *)
EXTENDS Extract, FiniteSets
CONSTANTS N, L
VARIABLES file, back          \* the file in hand; its steps' positions in the first
vars == <<file, back>>
Orig == [i \in 1 .. N |-> 10 * i]
Requests == UNION {[1 .. l -> (0 - N) .. N] : l \in 1 .. L}
Init == file = Orig /\ back = [i \in 1 .. N |-> i - 1]
Next == \E req \in Requests :
          IF Refused(Len(file), req) THEN UNCHANGED vars
          ELSE /\ file' = Extract(file, req)
               /\ back' = [x \in 1 .. Len(req) |-> back[IF req[x] < 0 THEN Len(back) + req[x] + 1 ELSE req[x] + 1]]
Spec == Init /\ [][Next]_vars
Composed == file = Extract(Orig, back)
Nothing == \A i \in 1 .. Len(file) : \E j \in 1 .. N : file[i] = Orig[j]
Whole == Extract(file, [i \in 1 .. Len(file) |-> i - 1]) = file
Backwards == \A i \in 1 .. Len(file) : Extract(file, <<i - 1>>) = Extract(file, <<i - 1 - Len(file)>>)
Beyond == Refused(Len(file), <<Len(file)>>) /\ Refused(Len(file), <<-1 - Len(file)>>)
================================================================================
