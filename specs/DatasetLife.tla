----------------------------- MODULE DatasetLife -----------------------------
(* The life cycle of a QGDataset: a family of QG fields, one per slice of the *)
(* extra dimensions, on which every stage is called together.                 *)
(*                                                                            *)
(* A stage of the dataset is accepted exactly when every slice accepts it.    *)
(* Accepted, it has been run on every slice.  Refused, each slice either was  *)
(* left alone or ran the stage as a field of its own (the one that refuses    *)
(* does so as a field of its own does): which of them ran is not spoken of.   *)
EXTENDS QGFieldLife

AllAccept(cs, ss, o) == \A i \in DOMAIN cs : Accepted(cs[i], ss[i], o)
\* what may have become of slice i after a call with this outcome
Outcomes(cs, ss, o, i) == IF AllAccept(cs, ss, o) THEN {After(cs[i], ss[i], o)} ELSE {ss[i], After(cs[i], ss[i], o)}
Follows(cs, ss, o, tt) == \A i \in DOMAIN cs : tt[i] \in Outcomes(cs, ss, o, i)

(* ---- what can be read of the dataset: what can be read of every slice ------ *)
DsMustRead(ss) == {p \in Outputs : \A i \in DOMAIN ss : p \in MustRead(ss[i])}
DsMustRefuse(ss) == {p \in Outputs : \E i \in DOMAIN ss : p \in MustRefuse(ss[i])}
=============================================================================
