----------------------------- MODULE Extract_Judge -----------------------------
(* A case is a chain of calls on files.  A call: n, the steps of its file (-1: no *)
(* time axis; -2: no file), req, outcome, vars: per variable with steps their     *)
(* identities before and after; kept: facts about everything else.                *)
EXTENDS Extract, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
Want(s) == IF s.n = -2 THEN "FileNotFoundError" ELSE IF s.n = -1 THEN "ValueError" ELSE IF Refused(s.n, s.req) THEN "IndexError" ELSE "ok"
Clauses(c) ==
  LET S == 1 .. Len(c.calls)
      Ok == {i \in S : c.calls[i].outcome = "ok" /\ Want(c.calls[i]) = "ok"}
  IN  <<ForAll("what is not there is refused, nothing else", S, LAMBDA i : c.calls[i].outcome = Want(c.calls[i])),
        ForAll("the file holds the steps asked for, in their order", Ok,
               LAMBDA i : \A x \in 1 .. Len(c.calls[i].vars) : c.calls[i].vars[x].out = Extract(c.calls[i].vars[x].steps, c.calls[i].req)),
        ForAll("all else is kept", UNION {{<<i, k>> : k \in DOMAIN c.calls[i].kept} : i \in S}, LAMBDA p : c.calls[p[1]].kept[p[2]])>>
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
================================================================================
