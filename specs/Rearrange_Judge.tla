---------------------------- MODULE Rearrange_Judge ----------------------------
(* Judges recorded PV reference states.  A case holds hemispheres h: for every *)
(* level lv the values q of the whole globe (mirrored and negated for the      *)
(* south) and the reference Q, both less the smallest value and in units of    *)
(* the level's range; a the area of a cell of each row and cap the area        *)
(* poleward of each row; dq the width of a partition; Q2 the reference of the  *)
(* same values exchanged along latitude circles, if recorded.                  *)
EXTENDS Rearrange, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
Tag(h, t) == (IF h.south THEN "south: " ELSE "north: ") \o t
Fn(dom, F(_)) == TLCEval([x \in dom |-> F(x)])
E == 8          \* rounding of values
EA == 256       \* rounding of areas

Hemi(h) ==
  LET n == h.n  Lev == 1 .. Len(h.lv)  Rows == 2 .. n - 1
      top(x) == Fn({1}, LAMBDA u : MaxOver(UNION {{h.lv[x].q[j][i] : i \in 1 .. Len(h.lv[x].q[j])} : j \in 1 .. Len(h.lv[x].q)}, LAMBDA v : v))[1]
      Tops == Fn(Lev, top)
      Left == Fn(Lev, LAMBDA x : <<Above(h.lv[x].q, h.a, Tops[x] - h.dq - E), Above(h.lv[x].q, h.a, Tops[x] - h.dq + E)>>)
  IN  <<ForAll(Tag(h, "no more area of larger PV than poleward of the latitude"), Lev \X Rows,
           LAMBDA p : LET v == h.lv[p[1]] IN Above(v.q, h.a, v.Q[p[2]] + E) - Left[p[1]][1] <= h.cap[p[2]] + EA),
        ForAll(Tag(h, "no less area of larger PV than poleward of the latitude"), Lev \X Rows,
           LAMBDA p : LET v == h.lv[p[1]] IN h.cap[p[2]] <= Above(v.q, h.a, v.Q[p[2]] - 2 * h.dq - E) - Left[p[1]][2] + EA),
        ForAll(Tag(h, "the PV reference does not decrease poleward"), Lev \X (2 .. n - 1),
           LAMBDA p : h.lv[p[1]].Q[p[2]] <= h.lv[p[1]].Q[p[2] + 1] + E),
        ForAll(Tag(h, "the PV reference stays in the range of PV"), Lev \X (2 .. n),
           LAMBDA p : LET v == h.lv[p[1]] IN v.Q[p[2]] >= -E /\ v.Q[p[2]] <= Tops[p[1]] + E),
        ForAll(Tag(h, "the pole has the largest PV"), Lev, LAMBDA x : Close(h.lv[x].Q[n], Tops[x], E))>>
      \o (IF \A x \in Lev : "Q2" \notin DOMAIN h.lv[x] THEN <<>>
          ELSE <<ForAll(Tag(h, "exchanging values along latitude circles changes nothing"),
                    {x \in Lev : "Q2" \in DOMAIN h.lv[x]} \X (2 .. n),
                    LAMBDA p : Close(h.lv[p[1]].Q[p[2]], h.lv[p[1]].Q2[p[2]], h.tolX))>>)

Clauses(c) == FlattenSeq([x \in 1 .. Len(c.h) |-> Hemi(c.h[x])])
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
================================================================================
