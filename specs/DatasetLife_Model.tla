-------------------------- MODULE DatasetLife_Model --------------------------
(* A dataset of slices that need different numbers of iterations, driven by   *)
(* any sequence of calls; beside it, fields of their own which are given the   *)
(* same calls (own).  Also generates the histories that are replayed.          *)
EXTENDS DatasetLife, TLC, Json
CONSTANTS Needs, Limits, Forcings, Slices, MaxLen
VARIABLES cfg, st, own, clean, hist
vars == <<cfg, st, own, clean, hist>>

Ops == {Interp, Lwa, Copy} \cup {Solve(m) : m \in Limits} \cup {Flux(f) : f \in Forcings} \cup {Layer(f) : f \in Forcings}
Kin(c) == \A i, j \in Slices : c[i].cls = c[j].cls /\ c[i].nh = c[j].nh /\ c[i].raise = c[j].raise
Start == [x \in Slices |-> Init0]
Init == /\ cfg \in {c \in [Slices -> Cfgs(Needs)] : Kin(c)}
        /\ st = Start /\ own = Start /\ clean = TRUE /\ hist = <<>>
Call(o) ==
  /\ st' \in [Slices -> UNION {Outcomes(cfg, st, o, i) : i \in Slices}] /\ Follows(cfg, st, o, st')
  /\ clean' = (clean /\ AllAccept(cfg, st, o))
  /\ own' = IF clean' THEN [i \in Slices |-> After(cfg[i], own[i], o)] ELSE Start      \* followed while nothing was refused
  /\ UNCHANGED <<cfg, hist>>
Next == \E o \in Ops : Call(o)
Spec == Init /\ [][Next]_vars

TypeOK == DsMustRead(st) \cap DsMustRefuse(st) = {}
\* as long as nothing was refused the slices are the fields of their own
AsAlone == clean => st = own
\* one slice which did not converge keeps the whole dataset from its fluxes
FluxIffConverged == AllAccept(cfg, st, Flux("none")) <=> \A i \in Slices : st[i].ref = "ok"
LwaAfterAnySolve == (\A i \in Slices : st[i].ref # "-") => AllAccept(cfg, st, Lwa)
\* a call whose stage every slice refuses outright changes nothing; whatever happens, a
\* refused call takes nothing away but reference states
Refusals == [][\A o \in Ops : (Call(o) /\ ~ AllAccept(cfg, st, o)) =>
                 /\ (\A i \in Slices : ~ Accepted(cfg[i], st[i], o) /\ ~ Raised(cfg[i], st[i], o)) => st' = st
                 /\ \A i \in Slices : MustRead(st[i]) \ RefOut \subseteq MustRead(st'[i])]_vars
\* slices that are alike stay together while nothing is refused
Alike == clean => \A i, j \in Slices : cfg[i] = cfg[j] => st[i] = st[j]
\* from every state the normal sequence completes on every slice
Run(c, s, ops) == LET r[i \in 0 .. Len(ops)] == IF i = 0 THEN s ELSE After(c, r[i - 1], ops[i]) IN r[Len(ops)]
Completes == LET f == [i \in Slices |-> Run(cfg[i], st[i], <<Interp, Solve(99), Flux("none")>>)]
             IN  \A p \in InterpOut \cup RefOut \cup FluxOut \cup LwaBaro \cup {"lwa"} :
                    p \in DsMustRead(f) /\ \A i \in Slices : Source(f[i], p) \in {"I", "R-YY", "F-none"}

(* ---- generation of histories ------------------------------------------------ *)
GenInit == /\ cfg = [x \in Slices |-> [cls |-> "NH18", nh |-> FALSE, raise |-> FALSE, needN |-> 0, needS |-> 0]]
           /\ st = Start /\ own = Start /\ clean = TRUE /\ hist = <<>>
GenNext == /\ Len(hist) < MaxLen
           /\ \E o \in Ops : hist' = Append(hist, <<o.op, o.m, o.f>>) /\ UNCHANGED <<cfg, st, own, clean>>
GenSpec == GenInit /\ [][GenNext]_vars
Emit == Len(hist) = MaxLen => PrintT("HIST|" \o ToJson(hist))
=============================================================================
