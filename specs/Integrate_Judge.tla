---------------------------- MODULE Integrate_Judge ----------------------------
(* A case: t (half seconds), pts, per point L and X (quarters of a unit are 1) *)
(* and what was returned, out[name][point] in the same unit; the request's own *)
(* names and the names present; kept, a set of facts about labels and          *)
(* attributes; start, stop, secs (half seconds).                              *)
EXTENDS Integrate, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
ok(c) ==
  LET N == Len(c.t)
      P == 1 .. Len(c.L)
      X(p) == [k \in 1 .. 3 |-> c.X[k][p]]
  IN  <<Holds("the five terms are returned and nothing else", {c.vars[i] : i \in 1 .. Len(c.vars)} = Outputs),
        ForAll("delta_lwa is the last minus the first", P, LAMBDA p : c.out.delta_lwa[p] = 4 * Change(c.L[p])),
        ForAll("the convergence term is integrated", P, LAMBDA p : c.out.integrated_convergence_zonal_advective_flux[p] = Trap2(c.t, c.X[1][p])),
        ForAll("the momentum flux term is integrated", P, LAMBDA p : c.out.integrated_divergence_eddy_momentum_flux[p] = Trap2(c.t, c.X[2][p])),
        ForAll("the heat flux term is integrated", P, LAMBDA p : c.out.integrated_meridional_heat_flux[p] = Trap2(c.t, c.X[3][p])),
        ForAll("the residual closes the budget", P,
               LAMBDA p : c.out.residual[p] = 4 * Change(c.L[p]) - Trap2(c.t, c.X[1][p]) - Trap2(c.t, c.X[2][p]) - Trap2(c.t, c.X[3][p])),
        Holds("the attributes give the first time", c.start = c.t[1]),
        Holds("the attributes give the last time", c.stop = c.t[N]),
        Holds("the attributes give the elapsed seconds", c.secs = c.t[N] - c.t[1]),
        ForAll("labels and attributes are kept", DOMAIN c.kept, LAMBDA k : c.kept[k])>>
Wanted(c) ==
  LET R == {"time", "lwa_baro", Roles[1], Roles[2], Roles[3]}
      present == {c.present[i] : i \in 1 .. Len(c.present)}
      n(r) == Lookup(IF r \in DOMAIN c.own THEN c.own[r] ELSE "", IF r = "time" THEN TimeNames ELSE <<r>>, present)
  IN  IF \E r \in R : n(r) = "KeyError" THEN "KeyError" ELSE "ok"
Clauses(c) ==
  <<Holds("what is missing is refused, nothing else", c.outcome = Wanted(c))>> \o (IF c.outcome = "ok" /\ Wanted(c) = "ok" THEN ok(c) ELSE <<>>)
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
================================================================================
