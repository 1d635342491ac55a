-------------------------------- MODULE Extract --------------------------------
(* Snapshots taken out of a file.  A file's steps are a sequence; a request is a *)
(* sequence of positions, from 0, or from -1 backwards.                          *)
EXTENDS Integers, Sequences
At(n, i) == IF i >= 0 THEN i + 1 ELSE n + i + 1
There(n, i) == -n <= i /\ i < n
Refused(n, req) == \E x \in 1 .. Len(req) : ~ There(n, req[x])
Extract(file, req) == [x \in 1 .. Len(req) |-> file[At(Len(file), req[x])]]
================================================================================
