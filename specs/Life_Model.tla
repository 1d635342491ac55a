----------------------------- MODULE Life_Model -----------------------------
(* Exhaustive model of two independent QG field objects driven by any        *)
(* interleaving of calls, and generator of call histories for replay.        *)
EXTENDS QGFieldLife, TLC, Json, IOUtils

CONSTANTS Needs, Limits, Forcings, Objs, MaxLen

VARIABLES cfg, st, last, hist
vars == <<cfg, st, last, hist>>

Ops == {Interp, Lwa, Copy} \cup {Solve(m) : m \in Limits} \cup {Flux(f) : f \in Forcings} \cup {Layer(f) : f \in Forcings}

Init == /\ cfg \in [Objs -> Cfgs(Needs)]
        /\ st = [x \in Objs |-> Init0]
        /\ last = [x \in Objs |-> [o |-> Op("-", 0, "-"), ok |-> TRUE, raised |-> FALSE, was |-> Init0]]
        /\ hist = <<>>

Call(x, o) ==
  /\ last' = [last EXCEPT ![x] = [o |-> o, ok |-> Accepted(cfg[x], st[x], o),
                                  raised |-> Raised(cfg[x], st[x], o), was |-> st[x]]]
  /\ st' = [st EXCEPT ![x] = After(cfg[x], st[x], o)]
  /\ UNCHANGED <<cfg, hist>>
Next == \E x \in Objs, o \in Ops : Call(x, o)
Spec == Init /\ [][Next]_vars

(* ---- what the life cycle guarantees ------------------------------------- *)
TypeOK == \A x \in Objs : /\ st[x].ref \in {"-", "ok", "bad", "undef"}
                          /\ MustRead(st[x]) \cap MustRefuse(st[x]) = {}
                          /\ MustRead(st[x]) \cup MustRefuse(st[x]) \subseteq Outputs
\* C15: fluxes are accepted exactly when the latest solve converged
FluxIffConverged == \A x \in Objs : Accepted(cfg[x], st[x], Flux("none")) <=>
                       (st[x].ref = "ok" /\ st[x].conv = <<TRUE, TRUE>>)
FlagIffBad == \A x \in Objs : Flag(st[x]) <=> (st[x].ref # "-" /\ st[x].conv # <<TRUE, TRUE>>)
LwaAfterAnySolve == \A x \in Objs : Flag(st[x]) => Accepted(cfg[x], st[x], Lwa)
\* C01: a refused call changes nothing readable, except that a solve that
\* does not converge and raises leaves the reference states undefined
RefusedIsNoop == \A x \in Objs : (~ last[x].ok /\ ~ last[x].raised) => st[x] = last[x].was
RaisedOnlyRef == \A x \in Objs : last[x].raised =>
                   MustRead(st[x]) = MustRead(last[x].was) \ RefOut
\* prerequisites are ordered
Ordered == \A x \in Objs : /\ (st[x].ref # "-" => st[x].interp)
                           /\ (st[x].baro # "-" \/ st[x].layer # "-" => st[x].ref # "-")
\* from every state the normal sequence completes
Run(c, s, ops) == LET r[i \in 0 .. Len(ops)] == IF i = 0 THEN s ELSE After(c, r[i - 1], ops[i]) IN r[Len(ops)]
Normal == <<Interp, Solve(99), Flux("none")>>
Completes == \A x \in Objs : LET f == Run(cfg[x], st[x], Normal)
                             IN  f.ref = "ok" /\ \A p \in InterpOut \cup RefOut \cup FluxOut \cup LwaBaro \cup {"lwa"} :
                                    p \in MustRead(f) /\ Source(f, p) \in {"I", "R-YY", "F-none"}
\* C02: the provenance of everything readable is a canonical run
Canonical == {"I", "L", "Y-none", "any"} \cup {"F-" \o f : f \in Forcings}
             \cup {"R-" \o a : a \in {"YY", "YN", "NY", "NN"}}
ProvenanceOK == \A x \in Objs : \A p \in MustRead(st[x]) : Source(st[x], p) \in Canonical
\* going on with a copy changes nothing
CopyIsFree == \A x \in Objs : last[x].o = Copy => (last[x].ok /\ st[x] = last[x].was)
\* objects do not influence each other (frame condition)
Frame == [][\A x \in Objs : last'[x] = last[x] => st'[x] = st[x]]_vars

(* ---- generation of histories ------------------------------------------------ *)
GenInit == /\ cfg = [x \in Objs |-> [cls |-> "NH18", nh |-> FALSE, raise |-> FALSE, needN |-> 0, needS |-> 0]]
           /\ st = [x \in Objs |-> Init0]
           /\ last = [x \in Objs |-> [o |-> Op("-", 0, "-"), ok |-> TRUE, raised |-> FALSE, was |-> Init0]]
           /\ hist = <<>>
GenNext == /\ Len(hist) < MaxLen
           /\ \E x \in Objs, o \in Ops : /\ hist' = Append(hist, <<x, o.op, o.m, o.f>>)
                                         /\ UNCHANGED <<cfg, st, last>>
GenSpec == GenInit /\ [][GenNext]_vars
Emit == Len(hist) = MaxLen => PrintT("HIST|" \o ToJson(hist))
=============================================================================
