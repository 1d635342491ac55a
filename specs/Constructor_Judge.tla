--------------------------- MODULE Constructor_Judge ---------------------------
(* Judges recorded constructions: reqs (the requests TLC made, with what came  *)
(* of them: out, warned, kmax and dz of the object in 1/1024 of a level, and   *)
(* whether the arguments are untouched), maxima (real-valued heights: the kmax *)
(* suggested when a huge one is refused, and the kmax accepted), and masked    *)
(* runs (identities of outputs with and without masks).                        *)
EXTENDS Constructor, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
R(x) == [x EXCEPT !.masked = ToSet(x.masked)]
Clauses(c) ==
  IF "reqs" \in DOMAIN c THEN
    LET I == 1 .. Len(c.reqs) IN
    <<ForAll("accepts what is documented and refuses what is not, with the right error", I, LAMBDA i : c.got[i].out \in Outcomes(R(c.reqs[i]))),
      ForAll("warns of masked arrays, and only of them", {i \in I : c.got[i].out = "ok"}, LAMBDA i : ToSet(c.got[i].warned) = Warned(R(c.reqs[i]))),
      ForAll("an accepted object has the levels asked for, or its input's own", {i \in I : c.got[i].out = "ok"},
         LAMBDA i : c.got[i].kmax = Levels(c.reqs[i]) /\ c.got[i].levels = Levels(c.reqs[i]) /\ Close(c.got[i].dz, 1024, 0)),
      ForAll("the arguments are untouched", I, LAMBDA i : c.got[i].same)>>
  ELSE IF "maxima" \in DOMAIN c THEN
    LET I == 1 .. Len(c.maxima) IN
    <<ForAll("the maximum kmax suggested is accepted, and so is every smaller one", I,
         LAMBDA i : \A k \in 2 .. c.maxima[i].said : c.maxima[i].accepted[k - 1]),
      ForAll("no kmax above the one suggested is accepted", I,
         LAMBDA i : \A k \in c.maxima[i].said + 1 .. Len(c.maxima[i].accepted) + 1 : ~ c.maxima[i].accepted[k - 1]),
      ForAll("the maximum is the last level below the top", I, LAMBDA i : c.maxima[i].said = MaxKmax([top |-> c.maxima[i].top]))>>
  ELSE <<ForAll("masked arrays give the results of their data", DOMAIN c.plain, LAMBDA o : c.masked[o] = c.plain[o]),
         ForAll("no output is masked", DOMAIN c.plain, LAMBDA o : o \notin ToSet(c.maskedout))>>
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
================================================================================
