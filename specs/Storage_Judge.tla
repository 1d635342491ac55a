----------------------------- MODULE Storage_Judge -----------------------------
(* A case is a pair of runs on inputs that hold the same values: a on plain     *)
(* arrays, b on arrays stored by c.steps.  flags is what numpy says of each     *)
(* array given to b, same whether it reads the values of its plain counterpart, *)
(* kept whether it still does after the run.                                    *)
EXTENDS Storage, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
Tol == 2048
V0 == [c \in Cells |-> 100 * (10 * c[1] + c[2] + 1)]
RECURSIVE After(_, _)
After(s, xs) == IF xs = <<>> THEN s ELSE After(Do(s, Head(xs)), Tail(xs))
Plain == Lay(V0, 0, <<12, 4>>, 4, FALSE, FALSE, FALSE)
Agrees(f, g) == \A k \in DOMAIN f : f[k] = g[k]
Row(r) == 1 .. Len(r)
Clauses(c) ==
  LET g == Flags(After(Plain, c.steps))
  IN  <<ForAll("the input is stored as specified", DOMAIN c.flags, LAMBDA n : Agrees(c.flags[n], g)),
        ForAll("the input holds the same values", DOMAIN c.same, LAMBDA n : c.same[n]),
        ForAll("the input is not changed", DOMAIN c.kept, LAMBDA n : c.kept[n])>>
      \o [x \in 1 .. Len(c.out) |->
            LET n == c.out[x] IN
            IF Len(c.a[n]) # Len(c.b[n]) \/ \E j \in Row(c.a[n]) : Len(c.a[n][j]) # Len(c.b[n][j])
            THEN Holds(n \o " keeps its shape", FALSE)
            ELSE ForAll(n \o " depends on the values alone", Row(c.a[n]),
                        LAMBDA j : \A i \in DOMAIN c.a[n][j] : Close(c.a[n][j][i], c.b[n][j][i], Tol))]
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
================================================================================
