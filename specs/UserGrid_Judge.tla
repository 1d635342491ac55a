---------------------------- MODULE UserGrid_Judge ----------------------------
(* Judges recorded runs.  A case: g, n, m, K, nh (grid, rows, columns, levels, *)
(* mode); shape of every output; nan, the outputs with a NaN; tuples: the      *)
(* identity of every element and of the property it is to equal; x, y, z: the  *)
(* input's coordinate identities and those shown, yref the rows (of the input) *)
(* the reference latitudes are; latdim; yana, the analysis' in 1/64 of 90 degrees / n(n-1); heights in 1/1024 of a level; for even grids   *)
(* o: for every output slabs of rows lo, hi (the analysis on the odd grid) and *)
(* out.  Or a line: values a + b Lat + c level and what is shown of them.      *)
EXTENDS UserGrid, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
Layout(c) ==
  LET names == DOMAIN c.shape IN
  <<ForAll("every output has the shape of its grid", names, LAMBDA o : c.shape[o] = ShapeOf(o, c.n, c.nh, c.K, c.m)),
    ForAll("no output has a NaN", names, LAMBDA o : o \notin Range(c.nan)),
    ForAll("the tuples of the stages hold the outputs", {<<s, i>> : s \in DOMAIN c.tuples, i \in 1 .. 9},
       LAMBDA p : LET t == c.tuples[p[1]] w == TupleOf(p[1])
                  IN  Len(t) = Len(w) /\ (p[2] <= Len(w) => t[p[2]] \in Range(c.ids[w[p[2]]]))),
    Holds("longitudes and latitudes are those of the input", c.coords.x = c.coords.xin /\ c.coords.y = c.coords.yin),
    Holds("the latitudes of the reference states are rows of the input",
       c.yref = [j \in 1 .. RowsOf("qref", c.n, c.nh) |-> FirstRow("qref", c.n, c.nh) + j - 1]),
    Holds("the latitude dimension is that of the input", c.latdim = c.n),
    Holds("the latitudes of the analysis are those of its grid",
       LET w == RefLats(c.n, c.nh) IN Len(c.yana) = Len(w) /\ \A j \in 1 .. Len(w) : Close(c.yana[j], 64 * w[j], 1)),
    Holds("there are kmax levels, equally spaced", Len(c.z) = c.K /\ \A k \in 1 .. Len(c.z) : Close(c.z[k], 1024 * (k - 1), 0))>>

Even(c) ==
  [x \in 1 .. Len(c.o) |->
     LET r == c.o[x]  f == FirstRow(r.n, c.n, c.nh) - 1  d == Den(c.g, c.n)
     IN  ForAll(r.n \o " is the analysis on the grid with an equator, interpolated back",
            (1 .. Len(r.out)) \X (1 .. Len(r.out[1])) \X (1 .. Len(r.out[1][1])),
            LAMBDA p : LET lo == r.lo[p[1]][p[2]][p[3]] hi == r.hi[p[1]][p[2]][p[3]] v == r.out[p[1]][p[2]][p[3]] j == f + p[2]
                       IN  /\ Abs(v) < 16777216 /\ Abs(lo) < 16777216 /\ Abs(hi) < 16777216
                           /\ Close(d * v, WLo(c.g, c.n, j) * lo + WHi(c.g, c.n, j) * hi, d * c.tol))]
Line(c) ==
  [x \in 1 .. Len(c.line) |->
     LET r == c.line[x] IN
     ForAll(r.n \o " linear in latitude and height comes back unchanged", (1 .. c.K) \X (1 .. c.n),
        LAMBDA p : \A i \in 1 .. c.m : Close(r.out[p[1]][p[2]][i], r.a + r.b * Lat(c.g, c.n, p[2]) + r.c * (p[1] - 1), c.tol))]
Clauses(c) == IF "line" \in DOMAIN c THEN Line(c)
              ELSE Layout(c) \o (IF "o" \in DOMAIN c THEN Even(c) ELSE <<>>)
                   \o (IF "alias" \in DOMAIN c THEN <<ForAll("QGField is QGFieldNH18", DOMAIN c.alias, LAMBDA o : c.alias[o] \in Range(c.ids[o]))>> ELSE <<>>)
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
================================================================================
