------------------------------- MODULE Difference -------------------------------
(* The difference and statistics utilities on integer data.  f[j][i] is a field  *)
(* on n rows and m columns, c[j] the cosine of latitude in quarters, w[j] its    *)
(* inverse in units of 1 (cosines are 1/4, 1/2, 1), 0 where it vanishes.         *)
EXTENDS Integers, Sequences
Add(lo, hi, Op(_)) == LET s[x \in (lo - 1) .. hi] == IF x < lo THEN 0 ELSE s[x - 1] + Op(x) IN IF hi < lo THEN 0 ELSE s[hi]
Col(i, m) == ((i - 1) % m) + 1
East(r, m, i) == r[Col(i + 1, m)]
West(r, m, i) == r[Col(i + m - 1, m)]
\* 2 R dlambda times the zonal convergence
ZonalConv(f, w, m, j, i) == -w[j] * (East(f[j], m, i) - West(f[j], m, i))
\* 8 R dphi times the meridional divergence: centred inside, one-sided at the edges
MeridDiv(f, c, w, n, j, i) ==
  w[j] * (IF j = 1 THEN 2 * (f[2][i] * c[2] - f[1][i] * c[1])
          ELSE IF j = n THEN 2 * (f[n][i] * c[n] - f[n - 1][i] * c[n - 1])
          ELSE f[j + 1][i] * c[j + 1] - f[j - 1][i] * c[j - 1])
\* 8 R times the curl; il, ip are 1/dlambda, 1/dphi.  The edge rows are zero
Curl(u, v, c, w, il, ip, n, m, j, i) ==
  IF j \in {1, n} THEN 0
  ELSE w[j] * (4 * il * (East(v[j], m, i) - West(v[j], m, i)) - ip * (u[j + 1][i] * c[j + 1] - u[j - 1][i] * c[j - 1]))
\* centred in the vertical, one-sided at the ends; 2 dz times the derivative
Vertical(g, K, k) == IF k = 1 THEN 2 * (g[2] - g[1]) ELSE IF k = K THEN 2 * (g[K] - g[K - 1]) ELSE g[k + 1] - g[k - 1]
\* stability of row j (eq the equator row): the southern, the mean, the northern one, doubled
Stab2(s, n, eq, j, k) == IF j < eq THEN 2 * s[k] ELSE IF j > eq THEN 2 * n[k] ELSE s[k] + n[k]
\* rows of a hemisphere: the first or last h of n
South(h, n) == 1 .. h
North(h, n) == n - h + 1 .. n
\* sum of a over rows and columns times area; area of those rows
WSum(a, area, rows, m) == Add(1, Len(area), LAMBDA j : IF j \in rows THEN Add(1, m, LAMBDA i : a[j][i]) * Add(1, m, LAMBDA i : area[j][i]) ELSE 0)
Area(area, rows, m) == Add(1, Len(area), LAMBDA j : IF j \in rows THEN Add(1, m, LAMBDA i : area[j][i]) ELSE 0)
\* N (N - 1) times the covariance of two series
Cov(a, b) == LET N == Len(a) IN N * Add(1, N, LAMBDA t : a[t] * b[t]) - Add(1, N, LAMBDA t : a[t]) * Add(1, N, LAMBDA t : b[t])
=================================================================================
