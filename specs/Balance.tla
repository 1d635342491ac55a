-------------------------------- MODULE Balance --------------------------------
(* The reference state of one hemisphere, rows from the equator (1) to the    *)
(* pole (n), levels 1..K: u its wind, T its potential temperature, Q its      *)
(* potential vorticity over the Coriolis parameter; w = u times the cosine.   *)
(* Residuals are stated over abstract products M and quotients D and vanish   *)
(* for a balanced state.                                                      *)
EXTENDS Integers, Sequences

\* thermal wind at row j, level k: the meridional temperature contrast follows from the vertical shear.
\* kt collects 2 Omega a H / R * dphi / dz, x = e^{kappa z/H}
ThermalWind(u, s, x, kt, M(_, _), k, j) == -M(M(M(kt, x[k]), s[j]), u[k + 1][j] - u[k - 1][j])
ThermalResidual(u, T, s, x, kt, M(_, _), k, j) == T[k][j + 1] - T[k][j - 1] - ThermalWind(u, s, x, kt, M, k, j)

(* Elliptic equation for w, divided by 4 Omega^2 H a^2 dphi^2 / (dz^2 R) tan  *)
(* phi and by the vertical scale: A, B meridional coefficients of the row     *)
(* north and south, Cv, Dv vertical ones of the level above and below.        *)
Elliptic(w, A, B, Cv, Dv, M(_, _), k, j) ==
  M(A[j], w[k][j + 1] - w[k][j]) - M(B[j], w[k][j] - w[k][j - 1])
  + M(Cv[k], w[k + 1][j] - w[k][j]) - M(Dv[k], w[k][j] - w[k - 1][j])
\* r[j]: what the PV gradient is multiplied by
Source(Q, r, M(_, _), k, j) == -M(r[j], Q[k][j + 1] - Q[k][j - 1])

\* thermal wind of the topmost layer, step levels deep, with the zonal-mean temperature tb of the same row
TopResidual(w, tb, s, c, kz, step, K, M(_, _), j) ==
  M(w[K][j] - w[K - step][j], s[j]) + M(M(kz, c[j]), tb[j + 1] - tb[j - 1])

\* weighted sum and weight of rows lo..n
MeanSum(T, c, lo, n, M(_, _)) ==
  LET a[j \in (lo - 1) .. n] == IF j < lo THEN 0 ELSE a[j - 1] + M(T[j], c[j]) IN a[n]
WeightSum(c, lo, n) == LET a[j \in (lo - 1) .. n] == IF j < lo THEN 0 ELSE a[j - 1] + c[j] IN a[n]
================================================================================
