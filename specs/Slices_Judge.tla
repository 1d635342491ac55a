------------------------------ MODULE Slices_Judge ------------------------------
(* A case: protocol, nh, dims and size of the extra dimensions, labels[d] the    *)
(* identities of their labels, stages: what each returned: for every variable    *)
(* its dims, the identities of its labels along each dimension, and cell[k], the  *)
(* identity of what is found at the labels of the k-th slice; want[v][k], what a   *)
(* QG field of that slice alone gives; axis[x], the identities of its axes; attrs *)
(* and wantattrs; acc, the same cells read from the accessors.                    *)
EXTENDS Slices, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
Stage(c, s) ==
  LET R == Returns(s.stage, c.protocol, c.nh)
      got == s.vars
      N == Prod(c.size)
      V == DOMAIN R \cap DOMAIN got
      t(x) == s.stage \o ": " \o x
      Axis(v, d) == IF d = "ylat" THEN (IF Global(v) THEN c.axis.ylat ELSE c.axis.yref) ELSE c.axis[d]
  IN  <<Holds(t("the variables that belong to the stage are returned"), DOMAIN R = DOMAIN got),
        ForAll(t("dimensions are the extra ones and the variable's own"), V, LAMBDA v : got[v].dims = c.dims \o R[v]),
        ForAll(t("extra dimensions keep their labels"), V \X {d \in 1 .. Len(c.dims) : TRUE},
               LAMBDA p : c.dims[p[2]] \in DOMAIN got[p[1]].label /\ got[p[1]].label[c.dims[p[2]]] = c.labels[p[2]]),
        ForAll(t("axes carry the coordinates of the grid"), {p \in V \X {"height", "ylat", "xlon"} : \E i \in 1 .. Len(R[p[1]]) : R[p[1]][i] = p[2]},
               LAMBDA p : p[2] \in DOMAIN got[p[1]].label /\ got[p[1]].label[p[2]] = Axis(p[1], p[2])),
        ForAll(t("each slice is what its own QG field gives"), V \X (1 .. N),
               LAMBDA p : Len(got[p[1]].cell) = N /\ got[p[1]].cell[p[2]] = c.want[s.stage][p[1]][p[2]]),
        ForAll(t("the accessors give the same"), {v \in V : v \in DOMAIN s.acc}, LAMBDA v : s.acc[v] = got[v].cell),
        ForAll(t("attributes are those of the fields"), DOMAIN s.attrs, LAMBDA a : a \in DOMAIN c.attrs /\ s.attrs[a] = c.attrs[a]),
        Holds(t("no attribute is missing"), s.stage = "force" \/ DOMAIN s.attrs = DOMAIN c.attrs)>>
Clauses(c) == FlattenSeq([i \in 1 .. Len(c.stages) |-> Stage(c, c.stages[i])])
              \o <<Holds("the harness read the slices in the order of the specification", c.order = Slices(c.size)),
                   ForAll("nothing is returned when no dataset is asked for, and the results are the same", DOMAIN c.quiet, LAMBDA q : c.quiet[q])>>
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
================================================================================
