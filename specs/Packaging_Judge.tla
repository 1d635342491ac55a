---------------------------- MODULE Packaging_Judge ----------------------------
(* A case: reqs and, for each, got: out (outcome), err (its message), and when  *)
(* accepted: grid, facts about the labels of the output; field[f], the identity  *)
(* of what interpolate_fields gives for f in each slice, and want[b][f], what a  *)
(* QG field made of the data in argument b gives.                               *)
EXTENDS Packaging, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
Req(x) == [x EXCEPT !.held = [b \in Fields |-> {f \in Fields : x.held[b][f]}]]
Clauses(c) ==
  LET R == TLCEval([i \in 1 .. Len(c.reqs) |-> Req(c.reqs[i])])
      I == 1 .. Len(R)
      A == {i \in I : c.got[i].out = "ok" /\ Outcomes(R[i]) = {"ok"}}
  IN  <<ForAll("what is documented is accepted, everything else refused with its error", I, LAMBDA i : c.got[i].out \in Outcomes(R[i])),
        ForAll("u is taken from the argument that provides it", A, LAMBDA i : c.got[i].field.u = c.got[i].want[Source(R[i], "u")].u),
        ForAll("v is taken from the argument that provides it", A, LAMBDA i : c.got[i].field.v = c.got[i].want[Source(R[i], "v")].v),
        ForAll("T is taken from the argument that provides it", A, LAMBDA i : c.got[i].field.t = c.got[i].want[Source(R[i], "t")].t),
        ForAll("the output is on the ascending grid with the input's labels", A \X DOMAIN c.got[CHOOSE i \in I : TRUE].grid,
               LAMBDA p : p[2] \in DOMAIN c.got[p[1]].grid /\ c.got[p[1]].grid[p[2]])>>
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
================================================================================
