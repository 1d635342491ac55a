-------------------------- MODULE DatasetLife_Judge --------------------------
(* Judges recorded call histories of real QGDatasets against DatasetLife.      *)
(*   cfgs  : configuration of each slice, with the iterations it needs          *)
(*   canon : for each slice, the results of canonical runs on a field of its    *)
(*           own, [run |-> [output |-> value id]]                              *)
(* An event: op, m (per slice), f, out ("ok", "refused" = ValueError, or the name of        *)
(* another exception), warn, flag (nonconvergent_uref of each slice), ret (the  *)
(* variables of the dataset handed out, a value id for each slice), vals (per   *)
(* output in OutSeq order, per slice: what the dataset reads; 0 = ValueError),  *)
(* own (per slice, per output: what the slice's field reads), inp (inputs       *)
(* bit-identical), kept (earlier results and datasets copied from unchanged).   *)
EXTENDS DatasetLife, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
OpOf(e, i) == Op(e.op, e.m[i], e.f)               \* the iteration limit is each slice's own
OutIdx == 1 .. Len(OutSeq)

\* slice i in state s is what was observed
Seen(c, e, i, s) ==
  /\ e.flag[i] = Flag(s)
  /\ \A j \in OutIdx : LET v == e.own[i][j]  p == OutSeq[j]
                       IN  /\ p \in MustRefuse(s) => v = 0
                           /\ p \in MustRead(s) => /\ v > 0
                                                   /\ (Source(s, p) = "any" \/ v = c.canon[i][Source(s, p)][p])
\* the states slice i may be in after e, given those it may have been in before; accepted calls leave one successor
Succ(c, e, i, S) ==
  {After(c.cfgs[i], s, OpOf(e, i)) : s \in S} \cup (IF e.out = "ok" THEN {} ELSE S)
Step(c, e, SS) == [i \in DOMAIN c.cfgs |-> LET t == Succ(c, e, i, SS[i])  u == {s \in t : Seen(c, e, i, s)} IN IF u = {} THEN t ELSE u]
\* element k+1: the possible states of every slice after event k
Track(c, run) == FoldLeft(LAMBDA acc, e : Append(acc, Step(c, e, acc[Len(acc)])), <<[i \in DOMAIN c.cfgs |-> {Init0}]>>, run)

Show(c, p) == <<p[1], [j \in 1 .. p[2] |-> <<c.runs[p[1]][j].op, c.runs[p[1]][j].m, c.runs[p[1]][j].f>>]>>
On(c, name, dom, Ok(_, _)) ==
  LET bad == {p \in dom : ~ Ok(p[1], p[2])} IN [n |-> name, of |-> Cardinality(dom), bad |-> {Show(c, p) : p \in bad}]

Clauses(c) ==
  LET T == FoldLeft(LAMBDA acc, run : Append(acc, Track(c, run)), <<>>, c.runs)
      Sl == DOMAIN c.cfgs
      Ev(r, k) == c.runs[r][k]
      Pre(r, k) == T[r][k]
      Post(r, k) == T[r][k + 1]
      May(r, k) == \A i \in Sl : \E s \in Pre(r, k)[i] : Accepted(c.cfgs[i], s, OpOf(Ev(r, k), i))
      Must(r, k) == \A i \in Sl : \A s \in Pre(r, k)[i] : Accepted(c.cfgs[i], s, OpOf(Ev(r, k), i))
      D == {p \in {<<r, k>> : r \in 1 .. Len(c.runs), k \in 1 .. c.longest} : p[2] <= Len(c.runs[p[1]])}
      Lasts == {p \in D : p[2] = Len(c.runs[p[1]])}
      InRead(i, r, k, p) == \A s \in Post(r, k)[i] : p \in MustRead(s)
      Refuses(i, r, k, p) == \A s \in Post(r, k)[i] : p \in MustRefuse(s)
      Ok(r, k) == IF Must(r, k) THEN Ev(r, k).out = "ok" ELSE IF May(r, k) THEN Ev(r, k).out \in {"ok", "refused"} ELSE Ev(r, k).out = "refused"
      Readable(r, k) ==
        \A j \in OutIdx : /\ (\A i \in Sl : InRead(i, r, k, OutSeq[j])) => \A i \in Sl : Ev(r, k).vals[j][i] > 0
                          /\ (\E i \in Sl : Refuses(i, r, k, OutSeq[j])) => \A i \in Sl : Ev(r, k).vals[j][i] = 0
      Values(r, k) == \A j \in OutIdx : \A i \in Sl : Ev(r, k).vals[j][i] > 0 => Ev(r, k).vals[j][i] = Ev(r, k).own[i][j]
      Member(r, k) == \A i \in Sl : \E s \in Post(r, k)[i] : Seen(c, Ev(r, k), i, s)
      Ret(r, k) == \A x \in DOMAIN Ev(r, k).ret : \E j \in OutIdx : OutSeq[j] = Ev(r, k).ret[x].v /\ Ev(r, k).ret[x].c = Ev(r, k).vals[j]
      Warned(r, k) == \E i \in Sl : \E s \in Pre(r, k)[i] : Warns(c.cfgs[i], s, OpOf(Ev(r, k), i))
  IN  << Holds("outputs recorded in the order of the specification", c.names = OutSeq),
         Holds("canonical runs are complete", \A i \in Sl : \A r \in {"I", "R-YY", "F-none", "L", "Y-none"} :
                r \in DOMAIN c.canon[i] /\ \A p \in DOMAIN c.canon[i][r] : c.canon[i][r][p] > 0),
         On(c, "a stage succeeds exactly when every slice's field would accept it", D, Ok),
         On(c, "an output can be read exactly when that of every slice can", D, Readable),
         On(c, "what the dataset reads is what its fields hold", D, Values),
         On(c, "every slice is what a field of its own would be", D, Member),
         On(c, "a returned dataset holds what is read afterwards", D, Ret),
         On(c, "a solve which does not converge on some slice warns if it is accepted", {p \in D : Ev(p[1], p[2]).out = "ok"},
            LAMBDA r, k : Ev(r, k).warn <=> Warned(r, k)),
         On(c, "what was handed out earlier, and datasets copied from, stay as they were", D, LAMBDA r, k : Ev(r, k).kept),
         On(c, "inputs are not modified", D, LAMBDA r, k : Ev(r, k).inp),
         On(c, "the normal sequence afterwards completes on every slice", Lasts,
            LAMBDA r, k : Ev(r, k).out = "ok" /\ \A i \in Sl : Post(r, k)[i] # {} /\ \A s \in Post(r, k)[i] :
                             s.ref = "ok" /\ s.flux = "none" /\ s.baro = "flux") >>
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
