-------------------------------- MODULE Budget --------------------------------
(* The finite-amplitude wave activity budget of one hemisphere, rows counted *)
(* from the equator (1) to the pole (n).  Everything is stated over an       *)
(* abstract multiplication M so that the model checks it on exact integers   *)
(* and the judge applies it to fixed-point observations of real runs.        *)
(* q[j][i] PV of one level (increasing poleward: sign reversed in the        *)
(* south), Q[j] its reference, c[j] cosine of latitude.                      *)
EXTENDS Integers, Sequences

Total(lo, hi, Op(_)) ==
  LET s[x \in (lo - 1) .. hi] == IF x < lo THEN 0 ELSE s[x - 1] + Op(x)
  IN  IF hi < lo THEN 0 ELSE s[hi]

(* How cell (jj, i) takes part in the displacement across row j: intruding   *)
(* high PV on the equatorward side counts +1, low PV on the poleward side    *)
(* (the row included) -1, everything else not at all.                        *)
Disp(q, Q, j, jj, i) ==
  IF jj >= j THEN (IF q[jj][i] <= Q[j] THEN -1 ELSE 0) ELSE (IF q[jj][i] > Q[j] THEN 1 ELSE 0)
Displaced(q, Q, n, j, i, X(_)) ==
  Total(1, n, LAMBDA jj : LET d == Disp(q, Q, j, jj, i) IN IF d = 0 THEN 0 ELSE d * X(jj))

Wave(q, Q, c, n, M(_, _), j, i) == Displaced(q, Q, n, j, i, LAMBDA jj : M(q[jj][i] - Q[j], c[jj]))
\* the two kinds of displacement: PV intruding from the pole (cyclonic), from the equator (anticyclonic)
WaveCyc(q, Q, c, n, M(_, _), j, i) ==
  Total(1, j - 1, LAMBDA jj : IF q[jj][i] > Q[j] THEN M(q[jj][i] - Q[j], c[jj]) ELSE 0)
WaveAnti(q, Q, c, n, M(_, _), j, i) ==
  Total(j, n, LAMBDA jj : IF q[jj][i] <= Q[j] THEN M(Q[j] - q[jj][i], c[jj]) ELSE 0)
\* third-order flux: eddy advection of displaced PV, angular velocities taken to the row j
NonlinFlux(q, Q, u, U, c, n, M(_, _), j, i) ==
  Displaced(q, Q, n, j, i, LAMBDA jj : M(q[jj][i] - Q[j], M(u[jj][i], c[j]) - M(U[j], c[jj])))
\* projection of a forcing of PV
Forced(q, Q, nc, c, n, M(_, _), j, i) == Displaced(q, Q, n, j, i, LAMBDA jj : M(nc[jj][i], c[jj]))

(* Centred vertical derivative of e^{-z/H} g, times e^{z/H}: 2 dz times the  *)
(* interior value, dz times the one-sided end values.  up = e^{dz/H},        *)
(* dn = e^{-dz/H}; g a function of the level 1..K.                           *)
ZDer2(g, K, up, dn, M(_, _), k) ==
  IF k = 1 THEN 2 * (M(g[2], dn) - g[1])
  ELSE IF k = K THEN 2 * (g[K] - M(g[K - 1], up))
  ELSE M(g[k + 1], dn) - M(g[k - 1], up)

(* Density-weighted vertical sum over levels 2..top *)
Column(X(_), w, top, M(_, _)) == Total(2, top, LAMBDA k : M(X(k), w[k]))
\* periodic centred difference
WrapX(i, m) == ((i - 1) % m) + 1
Centred(f, m, i) == f[WrapX(i + 1, m)] - f[WrapX(i - 1 + m, m)]
===============================================================================
