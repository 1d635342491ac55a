---------------------------- MODULE Packaging_Model ----------------------------
(* Requests reached from good ones by edits; and what follows from the rules.  *)
EXTENDS Packaging, TLC, Json
CONSTANTS MaxEdits
VARIABLES r, edits
vars == <<r, edits>>
Good(bu, bv, bt, k, s) ==
  [box |-> [u |-> bu, v |-> bv, t |-> bt], held |-> [u |-> Fields, v |-> IF k = 1 THEN {"v"} ELSE Fields, t |-> IF k = 1 THEN {"t"} ELSE Fields],
   name |-> IF k = 1 THEN [u |-> "u", v |-> "v", t |-> "t"] ELSE [u |-> "U", v |-> "v", t |-> "T"],
   cname |-> IF k = 1 THEN [plev |-> "plev", ylat |-> "ylat", xlon |-> "xlon"] ELSE [plev |-> "level", ylat |-> "latitude", xlon |-> "lon"],
   own |-> [x \in {} |-> ""], order |-> [f \in Fields |-> "std"], label |-> "",
   lat |-> IF k = 1 THEN "up" ELSE "down", lev |-> "down", slices |-> s]
Init == /\ edits = 0
        /\ \E k \in {1, 2}, s \in {0, 2} :
             \/ \E bv, bt \in {"none", "array", "set"} : r = Good("set", bv, bt, k, s)
             \/ \E bv, bt \in {"array", "set"} : r = Good("array", bv, bt, k, s)
Edit(x) == r' = x /\ edits' = edits + 1
With(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Repack == \E f \in Fields, k \in {"array", "set", "none", "wrong"} : (f = "u" => k # "none") /\ k # r.box[f] /\ Edit([r EXCEPT !.box[f] = k])
Drop == \E b \in Fields : \E f \in r.held[b] : r.box[b] = "set" /\ Edit([r EXCEPT !.held[b] = @ \ {f}])
Rename == \E f \in Fields : Edit([r EXCEPT !.name[f] = "my_" \o f])
Renamed == \E f \in Fields : Edit([r EXCEPT !.name[f] = "my_" \o f, !.own = With(@, f, "my_" \o f)])
CRename == \E c \in Coords : Edit([r EXCEPT !.cname[c] = "my_" \o c])
CRenamed == \E c \in Coords : Edit([r EXCEPT !.cname[c] = "my_" \o c, !.own = With(@, c, "my_" \o c)])
Other == \E c \in Coords : \E n \in Known[c] : n # r.cname[c] /\ Edit([r EXCEPT !.cname[c] = n])
Declare == \E x \in Fields \cup Coords : Edit([r EXCEPT !.own = With(@, x, "nowhere")])
Reorder == \E f \in Fields, o \in {"swapped", "lonfirst", "extra last"} : (o = "extra last" => r.slices > 0) /\ r.order[f] # o /\ Edit([r EXCEPT !.order[f] = o])
ReorderAll == \E o \in {"swapped", "lonfirst"} : Edit([r EXCEPT !.order = [f \in Fields |-> o]])
Relabel == \E f \in {"v", "t"} : Edit([r EXCEPT !.label = f])
Turn == Edit([r EXCEPT !.lat = IF @ = "up" THEN "down" ELSE "up"])
Flip == Edit([r EXCEPT !.lev = IF @ = "up" THEN "down" ELSE "up"])
Next == edits < MaxEdits /\ (Repack \/ Drop \/ Rename \/ Renamed \/ CRename \/ CRenamed \/ Other \/ Declare \/ Reorder \/ ReorderAll \/ Relabel \/ Turn \/ Flip)
Spec == Init /\ [][Next]_vars
(* labels of a field that is not its own cannot differ                          *)
Sane == r.label = "" \/ r.box[r.label] \in {"array", "set"}
StartsGood == edits = 0 => Outcomes(r) = {"ok"}
Decided == "ok" \in Outcomes(r) => Outcomes(r) = {"ok"}
\* which way the axes run is never a reason to refuse
Axes == \A a, b \in {"up", "down"} : Outcomes([r EXCEPT !.lat = a, !.lev = b]) = Outcomes(r)
\* a dataset that holds everything under known names can stand for all three
OneIsEnough == (r.box["u"] = "set" /\ Outcomes(r) = {"ok"} /\ r.held["u"] = Fields /\ \A f \in Fields : InSet(r, "u", f))
               => Outcomes([r EXCEPT !.box["v"] = "none", !.box["t"] = "none"]) = {"ok"}
\* every accepted request has a source for each field
Sources == Outcomes(r) = {"ok"} => \A f \in Fields : LET b == Source(r, f) IN r.box[b] \in {"array", "set"} /\ (r.box[b] = "array" => b = f)
\* names declared do not matter when only arrays are given
ArraysHaveNoNames == ((\A f \in Fields : r.box[f] = "array") /\ Outcomes(r) = {"ok"}) => Outcomes([r EXCEPT !.name = [f \in Fields |-> "any"]]) = {"ok"}
Emit == Sane => PrintT("REQ|" \o ToJson([r EXCEPT !.held = [b \in Fields |-> [f \in Fields |-> f \in r.held[b]]]]))
================================================================================
