------------------------------ MODULE Slices_Model ------------------------------
(* The fields of a dataset are processed one after the other from the flattened *)
(* input and their results put back; forcing is looked up by label.  Whatever   *)
(* the sizes and however the labels are ordered, the result at a label is the   *)
(* result of the slice with that label.                                         *)
EXTENDS Slices, TLC
CONSTANTS MaxDims, MaxSize
VARIABLES size, label, forder, k, out
vars == <<size, label, forder, k, out>>
Sizes == UNION {[1 .. n -> 1 .. MaxSize] : n \in 0 .. MaxDims}
Perm(n) == {p \in [1 .. n -> 1 .. n] : \A i, j \in 1 .. n : i # j => p[i] # p[j]}
\* the data of the slice at position s, whose labels are label[d][s[d]]
Labels(s) == [d \in 1 .. Len(size) |-> label[d][s[d]]]
Input(L) == <<"state", L>>
\* forcing is stored with its own order of labels; found by label it is this one
Stored == [d \in 1 .. Len(size) |-> [i \in 1 .. size[d] |-> forder[d][label[d][i]]]]
Find(L) == [d \in 1 .. Len(size) |-> CHOOSE i \in 1 .. size[d] : forder[d][i] = L[d]]
Result(x, f) == <<x, f>>
Init == /\ size \in Sizes /\ Prod(size) <= 8
        /\ label \in [1 .. Len(size) -> UNION {Perm(n) : n \in 1 .. MaxSize}]
        /\ forder \in [1 .. Len(size) -> UNION {Perm(n) : n \in 1 .. MaxSize}]
        /\ \A d \in 1 .. Len(size) : DOMAIN label[d] = 1 .. size[d] /\ DOMAIN forder[d] = 1 .. size[d]
        /\ k = 0 /\ out = <<>>
Next == /\ k < Prod(size)
        /\ k' = k + 1
        /\ LET L == Labels(Slice(size, k + 1)) IN out' = Append(out, Result(Input(L), [d \in 1 .. Len(size) |-> forder[d][Find(L)[d]]]))
        /\ UNCHANGED <<size, label, forder>>
Spec == Init /\ [][Next]_vars
All == {s \in [1 .. Len(size) -> 1 .. MaxSize] : \A d \in 1 .. Len(size) : s[d] <= size[d]}
Bijection == \A s \in All : Slice(size, Position(size, s)) = s /\ Position(size, s) \in 1 .. Prod(size)
Once == Cardinality({Slice(size, i) : i \in 1 .. Prod(size)}) = Prod(size)
Labelled == \A s \in All : Position(size, s) <= k => out[Position(size, s)] = Result(Input(Labels(s)), Labels(s))
Tables == \A p \in {"NH18", "NHN22"}, nh \in BOOLEAN : \A st \in {"interp", "ref", "flux", "wave", "layer", "force"} :
            LET R == Returns(st, p, nh) IN \A v \in DOMAIN R : R[v][Len(R[v])] \in {"height", "ylat", "xlon"}
================================================================================
