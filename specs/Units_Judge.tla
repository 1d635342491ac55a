------------------------------ MODULE Units_Judge ------------------------------
(* A case is a pair of runs: b got the input of a converted to units changed by *)
(* 2^u (length, time, height, temperature).  Every row of every output is given *)
(* by integers v in units of 2^(e-20).                                          *)
EXTENDS Units, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
Tol == 64
\* names may carry the way they were obtained after a colon
Kind(c, n) == c.kind[n]
Same(p, q, d) ==                     \* p the row before, q after, d the power of two expected between them
  LET s == (q.e - p.e) - d
  IN  IF \A i \in DOMAIN p.v : p.v[i] = 0 THEN \A i \in DOMAIN q.v : q.v[i] = 0
      ELSE /\ s \in {-1, 0, 1}
           /\ \A i \in DOMAIN p.v : LET x == IF s = -1 THEN 2 * p.v[i] ELSE p.v[i]
                                        y == IF s = 1 THEN 2 * q.v[i] ELSE q.v[i]
                                    IN  Close(x, y, Tol)
Row(r, j) == [e |-> r.e[j], v |-> r.v[j]]
Clauses(c) ==
  <<ForAll("the input was converted as its dimensions say", DOMAIN c.given, LAMBDA n : c.given[n] = Shift(Inputs[n], c.u))>>
  \o [x \in 1 .. Len(c.out) |->
        LET n == c.out[x] IN
        IF Len(c.a[n].e) # Len(c.b[n].e) THEN Holds(n \o " keeps its shape", FALSE)
        ELSE ForAll(n \o " changes by its dimension alone", 1 .. Len(c.a[n].e),
               LAMBDA j : Same(Row(c.a[n], j), Row(c.b[n], j), Shift(Outputs[Kind(c, n)], c.u)))]
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
================================================================================
