------------------------------ MODULE Constructor ------------------------------
(* Which inputs a QG field accepts.  A request describes what is passed to the *)
(* constructor: n latitudes running "up" or "down" with zeros of them 0; m     *)
(* longitudes; L levels running "down" in pressure or "up"; the shapes of u,   *)
(* v, T; top, the height of the top level in 1/16 of dz; kmax; pre, whether    *)
(* the levels are the height grid; masked, the arrays passed as masked ones.   *)
EXTENDS Integers, Sequences, FiniteSets
Fields == {"u", "v", "t"}
Shape(r) == <<r.L, r.n, r.m>>
Tall(r) == ~ r.pre /\ 16 * (r.kmax - 1) > r.top
Faults(r) ==
  {x \in {"latitudes descend", "pressure ascends", "no equator", "several equators", "shape", "kmax"} :
     \/ x = "latitudes descend" /\ r.lat = "down"
     \/ x = "pressure ascends" /\ r.lev = "up"
     \/ x = "no equator" /\ r.n % 2 = 1 /\ r.zeros = 0
     \/ x = "several equators" /\ r.zeros > 1
     \/ x = "shape" /\ \E f \in Fields : r.shape[f] # Shape(r)
     \/ x = "kmax" /\ r.lev = "down" /\ Tall(r)}
ErrorOf(x) == IF x = "kmax" THEN "ValueError" ELSE "TypeError"
\* outcomes allowed: any of the errors that apply
Outcomes(r) == IF Faults(r) = {} THEN {"ok"} ELSE {ErrorOf(x) : x \in Faults(r)}
Warned(r) == r.masked                      \* what warnings there are about masked arrays
MaxKmax(r) == r.top \div 16 + 1
(* what an accepted object is *)
Levels(r) == IF r.pre THEN r.L ELSE r.kmax
================================================================================
