---------------------------- MODULE Budget_Judge ----------------------------
(* Judges recorded analyses against Budget.  A case holds hemispheres h;     *)
(* each: south, lo (first judged row), jb, n rows, m columns, levels; q, Q   *)
(* (real sign), u, v, U, t, T, c (cosine), s (sine, signed), w (e^{-z/H}),   *)
(* ek (e^{-kappa z/H}), dt, d1 (background differences), st (its derivative),*)
(* cst, up, dn; and what was observed.                                       *)
EXTENDS Budget, Vertical, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
Prop == IOEnv.VF_PROP

\* sign-symmetric product
M(a, b) == Mul(a, b)

Lev(h) == 2 .. h.levels - 1
Lats(h, lo) == lo .. h.n - 1
Cols(h) == 1 .. h.m
Sgn(h) == IF h.south THEN -1 ELSE 1
Oriented(h, k) == IF h.south THEN [j \in 1 .. h.n |-> [i \in 1 .. h.m |-> -h.q[k][j][i]]] ELSE h.q[k]
OrientedQ(h, k) == [j \in 1 .. h.n |-> Sgn(h) * h.Q[k][j]]
\* a field over levels, rows and columns, evaluated once; zero outside the judged rows
Tab(h, lo, X(_, _, _)) ==
  TLCEval([k \in 1 .. h.levels |-> IF k \notin Lev(h) THEN <<>> ELSE
     TLCEval([j \in 1 .. h.n |-> IF j \notin Lats(h, lo) THEN <<>> ELSE TLCEval([i \in Cols(h) |-> X(k, j, i)])])])
Pts(h, lo) == Lev(h) \X Lats(h, lo) \X Cols(h)
Pts2(h, lo) == Lats(h, lo) \X Cols(h)
At(f, p) == f[p[1]][p[2]][p[3]]
Tag(h, t) == (IF h.south THEN "south: " ELSE "north: ") \o t
Cmp(h, t, lo, want, got, tol) == ForAll(Tag(h, t), Pts(h, lo), LAMBDA p : Close(At(want, p), At(got, p), tol))

WaveTab(h, W(_, _, _, _, _)) ==
  LET qs == TLCEval([k \in 1 .. h.levels |-> TLCEval(Oriented(h, k))])
      Qs == TLCEval([k \in 1 .. h.levels |-> TLCEval(OrientedQ(h, k))])
  IN  Tab(h, h.lo, LAMBDA k, j, i : W(qs[k], Qs[k], k, j, i) \div h.n)
LWA(h) == WaveTab(h, LAMBDA q, Q, k, j, i : Wave(q, Q, h.c, h.n, M, j, i))

\* ---- density-weighted averages: baro * sum(w) = column sum ------------------------------------
WSum(h) == Total(2, h.levels - 1, LAMBDA k : h.w[k])
Avg(h, X(_), top, baro, tol) ==
  Close(Column(X, h.w, top, M) \div 16, (IF Abs(baro) <= 2 * ONE THEN Mul(baro, WSum(h) \div 16) ELSE 2147483647 \div 2), tol)

\* ---- where nothing is computed -----------------------------------------------------------------
\* rows on the equator side of the boundary row, the pole row, the lowest and highest level
Idle(h) == {p \in (1 .. h.levels) \X (1 .. h.n) \X Cols(h) :
              p[2] <= h.jb \/ (p[2] >= h.lo /\ (p[2] = h.n \/ p[1] \in {1, h.levels}))}
Idle2(h) == {p \in (1 .. h.n) \X Cols(h) : p[1] <= h.jb \/ p[1] = h.n}
Rest(h, t, got) == ForAll(Tag(h, t \o " is zero where it is not computed"), Idle(h), LAMBDA p : At(got, p) = 0)
Rest2(h, t, got) == ForAll(Tag(h, t \o " is zero where it is not computed"), Idle2(h), LAMBDA p : got[p[1]][p[2]] = 0)

\* ---- C06 -----------------------------------------------------------------------------------------
C06h(h) ==
  LET A == LWA(h)
      R(x) == <<Cmp(h, x.n \o " route: LWA is the displacement integral", h.lo, A, x.lwa, 8),
                Rest(h, x.n \o " route: LWA", x.lwa),
                Holds(Tag(h, x.n \o " route: wave activity is never negative"), ~ x.neg)>>
        \o (IF "baro" \in DOMAIN x
            THEN <<ForAll(Tag(h, x.n \o " route: lwa_baro is the average of the layers"), Pts2(h, h.lo),
                     LAMBDA p : Avg(h, LAMBDA k : x.lw[k][p[1]][p[2]], h.levels - 1, x.baro[p[1]][p[2]], 8)),
                   Rest2(h, x.n \o " route: lwa_baro", x.baro)>> ELSE <<>>)
        \o (IF "cyc" \in DOMAIN x
            THEN <<Cmp(h, x.n \o " route: cyclonic part", h.lo,
                       WaveTab(h, LAMBDA q, Q, k, j, i : WaveCyc(q, Q, h.c, h.n, M, j, i)), x.cyc, 8),
                   Cmp(h, x.n \o " route: anticyclonic part", h.lo,
                       WaveTab(h, LAMBDA q, Q, k, j, i : WaveAnti(q, Q, h.c, h.n, M, j, i)), x.anti, 8)>> ELSE <<>>)
  IN  FlattenSeq([x \in 1 .. Len(h.routes) |-> R(h.routes[x])])

\* ---- C08 -----------------------------------------------------------------------------------------
Poleward(h, j) == IF h.south THEN j - 1 ELSE j + 1       \* the row to the north
Equatorward(h, j) == IF h.south THEN j + 1 ELSE j - 1    \* the row to the south
C08h(h) ==
  LET A == LWA(h)
      te(k, j, i) == h.t[k][j][i] - h.T[k][j]
      ue(k, j, i) == h.u[k][j][i] - h.U[k][j]
      pe == TLCEval([k \in 1 .. h.levels |-> IF k \in Lev(h) THEN Div(Mul(h.cst, h.ek[k]), h.dt[k]) ELSE 0])
      smin == MinOver({h.st[k] : k \in 1 .. h.levels}, LAMBDA x : x)
      rs == TLCEval([k \in 1 .. h.levels |-> Div(smin, h.st[k])])
      flux(k, j, i) == Mul3(Mul(h.v[k][j][i], te(k, j, i)), h.c[j], rs[k])
      mom(k, j, i) == Mul3(Mul(ue(k, j, i), h.v[k][j][i]), h.c[j], h.c[j])
      dmin == Min2(h.d1, h.dt[2])
      heat(j, i) == Mul(h.s[j], Mul(h.c[j],
          Mul(h.dn, Mul(Mul(h.v[2][j][i], te(2, j, i)), Div(dmin, h.dt[2])))
          + Mul(Mul(h.v[1][j][i], te(1, j, i)), Div(dmin, h.d1)) \div 2))
      sl == IF h.jb = 0 THEN IF h.lo = 1 THEN 2 ELSE h.lo ELSE h.lo     \* rows with the hemisphere's own stability
      \* the row one to the equator side needs its own reference wind
      far == Max2(h.jb + 2, 2)
      W == WSum(h) \div 16
      strDom == (1 .. h.levels) \X Lats(h, sl) \X Cols(h)
  IN  <<Rest(h, "ua1", h.o.ua1), Rest(h, "ua2", h.o.ua2), Rest(h, "ep1", h.o.ep1), Rest2(h, "meridional_heat_flux", h.o.heat),
        Cmp(h, "ua1 is reference wind times wave activity", h.lo, Tab(h, h.lo, LAMBDA k, j, i : Mul(A[k][j][i], h.U[k][j])), h.o.ua1, 8),
        Cmp(h, "ua2 is the displacement integral of eddy advection", h.lo,
            WaveTab(h, LAMBDA q, Q, k, j, i : NonlinFlux(q, Q, h.u[k], h.U[k], h.c, h.n, M, j, i)), h.o.ua2, 8),
        Cmp(h, "ep1 is eddy energy: v^2 - u^2 - potential", h.lo,
            Tab(h, h.lo, LAMBDA k, j, i : Mul(h.c[j], (Sq(h.v[k][j][i]) - Sq(ue(k, j, i)) - Mul(pe[k], Sq(te(k, j, i)))) \div 2)), h.o.ep1, 24),
        LET lo2 == IF h.south THEN far ELSE h.lo
        IN  Cmp(h, "ep2 is the eddy momentum flux one row north", lo2,
                Tab(h, lo2, LAMBDA k, j, i : mom(k, Poleward(h, j), i)), h.o.ep2, 8),
        LET lo3 == IF h.south THEN h.lo ELSE far
        IN  Cmp(h, "ep3 is the eddy momentum flux one row south", lo3,
                Tab(h, lo3, LAMBDA k, j, i : mom(k, Equatorward(h, j), i)), h.o.ep3, 8),
        ForAll(Tag(h, "stretch_term is the vertical derivative of the eddy heat flux"), strDom,
            LAMBDA p : LET d == ZDer2([k \in 1 .. h.levels |-> flux(k, p[2], p[3])], h.levels, h.up, h.dn, M, p[1])
                       IN  Close(-Mul(d, h.s[p[2]]) \div 2, At(h.o.str, p), 8)),
        ForAll(Tag(h, "meridional_heat_flux comes from the two lowest levels"), Pts2(h, h.lo),
            LAMBDA p : LET o == h.o.heat[p[1]][p[2]]
                       IN  Abs(o) <= 2 * ONE /\ Close(Mul(o, W), heat(p[1], p[2]) \div 16, 4))>>

\* ---- C09 -----------------------------------------------------------------------------------------
C09h(h) ==
  LET ue(k, j, i) == h.u[k][j][i] - h.U[k][j]
      W == WSum(h) \div 16
      Av(x) == ForAll(Tag(h, x.n \o " is the density-weighted average of its layers"), Pts2(h, h.lo),
                  LAMBDA p : Avg(h, LAMBDA k : x.layer[k][p[1]][p[2]], h.levels, x.baro[p[1]][p[2]], 8))
      dom == Pts2(h, h.lo)
      far == {p \in dom : p[1] >= Max2(h.jb + 2, 2)}
      Conv(p) == LET x == h.conv[p[1]][p[2]]
                 IN  Abs(x) <= 2 * ONE /\ Close(16 * Mul(x, h.c[p[1]]), -Centred(h.F[p[1]], h.m, p[2]), 64)
      \* divergence * cos * normalisation = column of the two fluxes
      Dv(p) == LET x == h.div[p[1]][p[2]]
               IN  Abs(x) <= 2 * ONE
                   /\ Close(Mul(Mul(x, h.c[p[1]]), W),
                            Column(LAMBDA k : h.ep2[k][p[1]][p[2]] - h.ep3[k][p[1]][p[2]], h.w, h.levels, M) \div 256, 8)
      all == (1 .. h.n) \X Cols(h)
      Phi(p) == Avg(h, LAMBDA k : -Mul(Mul(ue(k, p[1], p[2]), h.v[k][p[1]][p[2]]), h.c[p[1]]), h.levels, h.phi[p[1]][p[2]], 24)
  IN  [x \in 1 .. Len(h.av) |-> Av(h.av[x])]
      \o <<ForAll(Tag(h, "flux_vector_lambda_baro is F1 + F2 + F3"), dom,
              LAMBDA p : Close(h.F[p[1]][p[2]], h.F1[p[1]][p[2]] + h.F2[p[1]][p[2]] + h.F3[p[1]][p[2]], 4)),
           ForAll(Tag(h, "convergence is minus the periodic centred derivative of the zonal flux"), dom, Conv),
           ForAll(Tag(h, "convergence has no zonal mean"), Lats(h, h.lo),
              LAMBDA j : Abs(Total(1, h.m, LAMBDA i : h.conv[j][i])) <= 2 * h.m),
           ForAll(Tag(h, "divergence_eddy_momentum_flux is the centred difference of the two fluxes"), far, Dv),
           ForAll(Tag(h, "flux_vector_phi_baro is minus the averaged eddy momentum flux"), all, Phi)>>

\* ---- C24 -----------------------------------------------------------------------------------------
(* z: heights of the input levels, zk: of the analysis levels (same unit);   *)
(* heat on input levels -> on the analysis levels -> forcing.                *)
C24f(h) ==                               \* forcing operator on one hemisphere
  LET smin == Min2(MinOver({h.st[k] : k \in 1 .. h.levels}, LAMBDA x : x), MinOver({h.so[k] : k \in 1 .. h.levels}, LAMBDA x : x))
      own == TLCEval([k \in 1 .. h.levels |-> Div(smin, h.st[k])])
      equ == TLCEval([k \in 1 .. h.levels |-> Div(smin, (h.st[k] + h.so[k]) \div 2)])     \* the mean at the equator
      g(k, j, i) == Mul(Interp([x \in 1 .. Len(h.z) |-> h.heat[x][j][i]], h.z, h.zk[k], Mul, Div), IF j = 1 THEN equ[k] ELSE own[k])
      G == TLCEval([k \in 1 .. h.levels |-> TLCEval([j \in 1 .. h.n |-> TLCEval([i \in Cols(h) |-> g(k, j, i)])])])
      slack == 8 + ONE \div MinOver(2 .. Len(h.z), LAMBDA x : h.z[x] - h.z[x - 1])       \* heights are rounded too
  IN  <<ForAll(Tag(h, "forcing is f e^{z/H} d/dz [e^{-z/H} heating / stability]"), (1 .. h.levels) \X (1 .. h.n) \X Cols(h),
          LAMBDA p : LET d == ZDer2([k \in 1 .. h.levels |-> G[k][p[2]][p[3]]], h.levels, h.up, h.dn, M, p[1])
                     IN  Close(Mul(d, h.s[p[2]]) \div 2, At(h.nc, p), slack))>>
C24p(h) ==                               \* projection
  LET want(x) == WaveTab(h, LAMBDA q, Q, k, j, i : Sgn(h) * Forced(q, Q, x.nc[k], h.c, h.n, M, j, i))
      One(x) == <<Cmp(h, x.n \o ": the layerwise projection uses the cells of the wave activity", h.lo, want(x), x.layer, 8)>>
  IN  FlattenSeq([x \in 1 .. Len(h.pr) |-> One(h.pr[x])])
C24c(c) ==
  FlattenSeq([x \in 1 .. Len(c.h) |-> (IF "heat" \in DOMAIN c.h[x] THEN C24f(c.h[x]) ELSE <<>>)
                                   \o (IF "pr" \in DOMAIN c.h[x] THEN C24p(c.h[x]) ELSE <<>>)])
  \o (IF "lin" \in DOMAIN c
      THEN <<ForAll("the projected forcing is linear in the forcing", DOMAIN c.lin.a,
                LAMBDA x : Close(c.lin.c[x], c.lin.ka * c.lin.a[x] + c.lin.kb * c.lin.b[x], 40)),
             Holds("no forcing projects to zero, and is the default", c.zero),
             ForAll("no other output depends on the forcing", DOMAIN c.dep, LAMBDA n : c.dep[n])>> ELSE <<>>)

Clauses(c) ==
  CASE Prop = "C24" -> C24c(c)
    [] OTHER -> FlattenSeq([x \in 1 .. Len(c.h) |->
          CASE Prop = "C06" -> C06h(c.h[x]) [] Prop = "C08" -> C08h(c.h[x]) [] Prop = "C09" -> C09h(c.h[x])])

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
