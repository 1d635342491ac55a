------------------------------- MODULE Packaging -------------------------------
(* How u, v and T may be handed to a QGDataset, and what becomes of them.     *)
(* A request r: box[f], how argument f is given ("array", "set", "none" or     *)
(* "wrong"); held[b], the fields in the dataset given as argument b; name[f],  *)
(* what field f is called in any dataset, cname[c] the coordinates' names; own, *)
(* the names declared by the caller; order[f], the dimensions of field f        *)
(* ("std" ends in level, latitude, longitude); label, the argument whose labels *)
(* differ from the others ("" for none) ; lat, lev: "up" or "down"; slices.     *)
EXTENDS Integers, Sequences, FiniteSets
Fields == {"u", "v", "t"}
Coords == {"plev", "ylat", "xlon"}
Known == [u |-> {"u", "U"}, v |-> {"v", "V"}, t |-> {"t", "T"},
          plev |-> {"plev", "lev", "level", "isobaricInhPa", "pressure_level"}, ylat |-> {"ylat", "lat", "latitude"},
          xlon |-> {"xlon", "lon", "longitude"}]
(* the argument that field f is taken from                                     *)
Source(r, f) == IF r.box[f] = "none" THEN "u" ELSE f
(* whether field f can be found in the dataset given as argument b             *)
Findable(x, called, own) == IF x \in DOMAIN own THEN own[x] = called ELSE called \in Known[x]
InSet(r, b, f) == f \in r.held[b] /\ Findable(f, r.name[f], r.own)
Faults(r) ==
  {x \in {"type", "missing", "variable", "coordinate", "order", "labels"} :
     \/ x = "type" /\ \E f \in Fields : r.box[f] = "wrong"
     \/ x = "missing" /\ \E f \in Fields : r.box[f] = "none" /\ r.box["u"] # "set"
     \/ x = "variable" /\ \E f \in Fields : LET b == Source(r, f) IN r.box[b] = "set" /\ ~ InSet(r, b, f)
     \/ x = "coordinate" /\ \E c \in Coords : ~ Findable(c, r.cname[c], r.own)
     \/ x = "order" /\ \E f \in Fields : r.order[f] # "std"
     \/ x = "labels" /\ r.label # ""}
ErrorOf(x) == CASE x \in {"type", "missing", "order"} -> "AssertionError" [] x \in {"variable", "coordinate"} -> "KeyError" [] OTHER -> "ValueError"
Outcomes(r) == IF Faults(r) = {} THEN {"ok"} ELSE {ErrorOf(x) : x \in Faults(r)}
================================================================================
