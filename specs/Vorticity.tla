------------------------------- MODULE Vorticity -------------------------------
(* Quasi-geostrophic potential vorticity on a global latitude-longitude grid  *)
(* (rows 1..n from pole to pole, m columns, periodic), every formula          *)
(* multiplied by the cosine of its row so that nothing is divided.            *)
EXTENDS Integers, Sequences

Plus(lo, hi, Op(_)) ==
  LET s[x \in (lo - 1) .. hi] == IF x < lo THEN 0 ELSE s[x - 1] + Op(x)
  IN  IF hi < lo THEN 0 ELSE s[hi]
Around(i, m) == ((i - 1) % m) + 1
Dx(f, m, i) == f[Around(i + 1, m)] - f[Around(i - 1 + m, m)]

(* absolute vorticity times the cosine; om = 2 Omega, kv = 1/(2 a dlambda),   *)
(* ku = 1/(2 a dphi) in the units of the fields; s sine, c cosine             *)
AbsVort(u, v, s, c, om, kv, ku, m, M(_, _), j, i) ==
  M(M(om, s[j]), c[j]) + M(kv, Dx(v[j], m, i)) - M(ku, M(u[j + 1][i], c[j + 1]) - M(u[j - 1][i], c[j - 1]))
ZonalAbsVort(u, v, s, c, om, kv, ku, m, M(_, _), j) ==
  Plus(1, m, LAMBDA i : AbsVort(u, v, s, c, om, kv, ku, m, M, j, i)) \div m
\* the row whose vorticity a row shows: the pole rows show the zonal mean next to them
Next2Pole(j, n) == IF j = 1 THEN 2 ELSE IF j = n THEN n - 1 ELSE j
Vort(u, v, s, c, om, kv, ku, n, m, M(_, _), j, i) ==
  IF j \in {1, n} THEN ZonalAbsVort(u, v, s, c, om, kv, ku, m, M, Next2Pole(j, n))
  ELSE AbsVort(u, v, s, c, om, kv, ku, m, M, j, i)
\* what multiplies the stretching: the zonal-mean absolute vorticity, or the Coriolis parameter
Factor(zonal, u, v, s, c, om, kv, ku, n, m, M(_, _), j) ==
  IF zonal THEN ZonalAbsVort(u, v, s, c, om, kv, ku, m, M, Next2Pole(j, n))
  ELSE M(M(om, s[j]), c[Next2Pole(j, n)])
(* e^{z/H} d/dz [e^{-z/H} (theta - theta0) / stability], times 2 dz: g is the *)
(* anomaly over the stability at each level, up = e^{dz/H}, dn = e^{-dz/H}    *)
Stretch(g, up, dn, M(_, _), k) == M(g[k + 1], dn) - M(g[k - 1], up)
\* which hemisphere's background a row uses: the equator row (e) the southern
South(j, e) == j <= e
================================================================================
