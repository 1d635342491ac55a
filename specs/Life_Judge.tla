------------------------------ MODULE Life_Judge ------------------------------
(* Judges recorded call histories of real QG field objects against           *)
(* QGFieldLife.  A case is a batch of histories of the same objects:         *)
(*   cfgs  : configuration of each object                                    *)
(*   canon : for each object, the results of the canonical runs on fresh     *)
(*           objects, as [run |-> [output |-> value id]]                     *)
(*   runs  : sequences of events                                             *)
(* An event: x (object), op, m, f, out ("ok", "refused" = ValueError, or the *)
(* name of another exception), warn, flag (nonconvergent_uref), vals (per    *)
(* object, per output in OutSeq order: value id, 0 = ValueError, -1 = other  *)
(* exception), tup (value ids of the returned tuple), inp (input arrays      *)
(* bit-identical to what was passed in), kept (objects that were copied from  *)
(* still read what they read then).                                          *)
EXTENDS QGFieldLife, VF, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.VF_CASES)
Prop == IOEnv.VF_PROP

OpOf(e) == Op(e.op, e.m, e.f)
States(c, run) ==   \* the abstract state of every object: element i+1 is the state after event i
  FoldLeft(LAMBDA acc, e : LET cur == acc[Len(acc)]
                           IN  Append(acc, [cur EXCEPT ![e.x] = After(c.cfgs[e.x], cur[e.x], OpOf(e))]),
           <<[x \in 1 .. Len(c.cfgs) |-> Init0]>>, run)
Empty(c) == [x \in 1 .. Len(c.cfgs) |-> [j \in 1 .. Len(OutSeq) |-> 0]]

Pairs(c) == {<<r, i>> : r \in 1 .. Len(c.runs), i \in 1 .. c.longest}
Dom(c) == {p \in Pairs(c) : p[2] <= Len(c.runs[p[1]])}
Objs(c) == 1 .. Len(c.cfgs)
OutIdx == 1 .. Len(OutSeq)

Show(c, p) == <<p[1], [j \in 1 .. p[2] |-> <<c.runs[p[1]][j].x, c.runs[p[1]][j].op, c.runs[p[1]][j].m, c.runs[p[1]][j].f>>]>>
On(c, name, dom, Ok(_, _)) ==
  LET bad == {p \in dom : ~ Ok(p[1], p[2])}
  IN  [n |-> name, of |-> Cardinality(dom), bad |-> {Show(c, p) : p \in bad}]

Clauses(c) ==
  LET ST == FoldLeft(LAMBDA acc, run : Append(acc, States(c, run)), <<>>, c.runs)
      Ev(r, i) == c.runs[r][i]
      Cf(r, i) == c.cfgs[Ev(r, i).x]
      Pre(r, i) == ST[r][i][Ev(r, i).x]
      Post(r, i) == ST[r][i + 1][Ev(r, i).x]
      O(r, i) == OpOf(Ev(r, i))
      Acc(r, i) == Accepted(Cf(r, i), Pre(r, i), O(r, i))
      ValsAt(r, i) == IF i = 0 THEN Empty(c) ELSE Ev(r, i).vals
      Mine(r, i) == Ev(r, i).vals[Ev(r, i).x]
      \* at the first event nothing was recorded before it: compare only later events
      Same(r, i, x, ps) == i = 1 \/ \A j \in OutIdx : OutSeq[j] \in ps => ValsAt(r, i)[x][j] = ValsAt(r, i - 1)[x][j]
      Right(r, i, x) ==
        LET s == ST[r][i + 1][x]
        IN  \A j \in OutIdx : OutSeq[j] \in MustRead(s) =>
              LET src == Source(s, OutSeq[j])
              IN  src = "any" \/ Ev(r, i).vals[x][j] = c.canon[x][src][OutSeq[j]]
      D == Dom(c)
      Lasts == {p \in D : p[2] = Len(c.runs[p[1]])}
      Accept == On(c, "calls are accepted or refused as their prerequisites say", D,
                   LAMBDA r, i : Ev(r, i).out = IF Acc(r, i) THEN "ok" ELSE "refused")
      Readable == On(c, "exactly the outputs of completed stages can be read", D,
                     LAMBDA r, i : \A x \in Objs(c), j \in OutIdx :
                        /\ OutSeq[j] \in MustRead(ST[r][i + 1][x]) => Ev(r, i).vals[x][j] > 0
                        /\ OutSeq[j] \in MustRefuse(ST[r][i + 1][x]) => Ev(r, i).vals[x][j] = 0)
      Noop == On(c, "a refused call changes nothing readable", {p \in D : ~ Acc(p[1], p[2])},
                 LAMBDA r, i : Same(r, i, Ev(r, i).x, IF Raised(Cf(r, i), Pre(r, i), O(r, i)) THEN Outputs \ RefOut ELSE Outputs))
      Final == On(c, "the normal sequence afterwards gives the normal results", Lasts,
                  LAMBDA r, i : Right(r, i, Ev(r, i).x))
      Prov == On(c, "every output equals that of its canonical run", D,
                 LAMBDA r, i : \A x \in Objs(c) : Right(r, i, x))
      Frame == On(c, "a call on one object leaves the other objects alone", D,
                  LAMBDA r, i : \A x \in Objs(c) \ {Ev(r, i).x} : Same(r, i, x, Outputs))
      Kept == On(c, "an object that was copied is not touched by work on its copy", D, LAMBDA r, i : Ev(r, i).kept)
      Inp == On(c, "input arrays are not modified", D, LAMBDA r, i : Ev(r, i).inp)
      Tup == On(c, "a returned tuple holds the values of the properties",
                {p \in D : Acc(p[1], p[2]) /\ Ev(p[1], p[2]).out = "ok" /\ TupleOf(O(p[1], p[2]).op) # <<>>},
                LAMBDA r, i : LET t == TupleOf(Ev(r, i).op)
                              IN  /\ Len(Ev(r, i).tup) = Len(t)
                                  /\ \A k \in 1 .. Len(t) : \A j \in OutIdx :
                                       (OutSeq[j] = t[k] /\ ~ (Cf(r, i).cls = "NHN22" /\ Cf(r, i).nh /\ t[k] = "static_stability"))
                                       => Ev(r, i).tup[k] = Mine(r, i)[j])
      Solves == {p \in D : Ev(p[1], p[2]).op = "solve" /\ Pre(p[1], p[2]).interp}
      After15 == {p \in D : Ev(p[1], p[2]).op \in {"flux", "layer", "lwa"} /\ Pre(p[1], p[2]).ref # "-"}
      Flg == On(c, "the non-convergence flag tells the outcome of the latest solve", D,
                LAMBDA r, i : Ev(r, i).flag = Flag(Post(r, i)))
      SolveOut == On(c, "a solve that does not converge raises or warns as configured, one that converges does neither", Solves,
                     LAMBDA r, i : /\ Ev(r, i).out = (IF Acc(r, i) THEN "ok" ELSE "refused")
                                   /\ (Ev(r, i).out = "ok" => (Ev(r, i).warn <=> Warns(Cf(r, i), Pre(r, i), O(r, i)))))
      Gate == On(c, "fluxes are available iff the latest solve converged, LWA-only after any solve", After15,
                 LAMBDA r, i : Ev(r, i).out = IF Acc(r, i) THEN "ok" ELSE "refused")
      Defined == Holds("canonical runs are complete", \A x \in Objs(c) : \A k \in {"I", "R-YY", "F-none", "L", "Y-none"} :
                    k \in DOMAIN c.canon[x] /\ \A p \in DOMAIN c.canon[x][k] : c.canon[x][k][p] > 0)
      Order == Holds("outputs recorded in the order of the specification", c.names = OutSeq)
  IN  CASE Prop = "C01" -> <<Order, Defined, Accept, Readable, Noop, Final>>
        [] Prop = "C02" -> <<Order, Defined, Prov, Frame, Kept, Inp, Tup>>
        [] Prop = "C15" -> <<Order, Defined, Flg, SolveOut, Gate>>

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
