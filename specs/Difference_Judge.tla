---------------------------- MODULE Difference_Judge ----------------------------
(* A case names a utility, its integer input and out, its output multiplied by    *)
(* the common denominator of the formula and by 256.                             *)
EXTENDS Difference, VF, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VF_CASES)
Same(got, want) == got = 256 * want
Grid(c) == (1 .. c.n) \X (1 .. c.m)
Cube(c) == (1 .. c.K) \X (1 .. c.n) \X (1 .. c.m)
Fn(c, t, Want(_, _)) == ForAll(t, Grid(c), LAMBDA p : Same(c.out[p[1]][p[2]], Want(p[1], p[2])))
ByFn(c) ==
  CASE c.fn = "zonal_convergence" ->
         <<Fn(c, "zonal_convergence", LAMBDA j, i : ZonalConv(c.f, c.w, c.m, j, i)),
           ForAll("zonal_convergence has zero sum on every row", 1 .. c.n, LAMBDA j : Add(1, c.m, LAMBDA i : c.out[j][i]) = 0)>>
    [] c.fn = "meridional_divergence" -> <<Fn(c, "meridional_divergence", LAMBDA j, i : MeridDiv(c.f, c.c, c.w, c.n, j, i))>>
    [] c.fn = "curl_2d" -> <<Fn(c, "curl_2d", LAMBDA j, i : Curl(c.f, c.g, c.c, c.w, c.il, c.ip, c.n, c.m, j, i))>>
    [] c.fn = "z_derivative_of_prod" ->
         \* density 2^(K-k), data divisible by every stability: 2 dz times the derivative
         LET g(k, j, i) == c.d[k] * 2 * (c.f[k][j][i] \div Stab2(c.s, c.t, c.eq, j, k))
         IN  <<ForAll("z_derivative_of_prod", Cube(c),
                 LAMBDA p : Same(c.out[p[1]][p[2]][p[3]], c.mu[p[1]][p[2]] * Vertical([k \in 1 .. c.K |-> g(k, p[2], p[3])], c.K, p[1])))>>
    [] c.fn = "static_stability" ->
         LET H(x) == IF x = "n" THEN North(c.nh, c.n) ELSE South(c.sh, c.n)
             S(x, k) == WSum(c.f[k], c.area, H(x), c.m)
         IN  <<ForAll("static_stability: the mean is weighted by area over the hemisphere's rows", {"n", "s"} \X (1 .. c.K),
                 LAMBDA p : Same(c.t0[p[1]][p[2]], S(p[1], p[2]))),
               ForAll("static_stability: the stability is the derivative of the mean", {"n", "s"} \X (1 .. c.K),
                 LAMBDA p : Same(c.st[p[1]][p[2]], Vertical([k \in 1 .. c.K |-> S(p[1], k)], c.K, p[2])))>>
    [] c.fn = "compute_qgpv_givenvort" ->
         \* z(k) such that the density is 2^(K-k) (a common factor); stretching times 2^(K-k) 2 dz
         LET north(j) == j > c.n - c.h
             mine(j) == j <= c.h \/ north(j)
             g(k, j, i) == c.d[k] * ((c.f[k][j][i] - (IF north(j) THEN c.tn[k] ELSE c.ts[k])) \div (IF north(j) THEN c.t[k] ELSE c.s[k]))
         IN  <<ForAll("compute_qgpv_givenvort: the stretching term", {p \in Cube(c) : mine(p[2])},
                 LAMBDA p : Same(c.dz[p[1]][p[2]][p[3]], Vertical([k \in 1 .. c.K |-> g(k, p[2], p[3])], c.K, p[1]))),
               ForAll("compute_qgpv_givenvort: absolute vorticity plus stretching times the Coriolis parameter", {p \in Cube(c) : mine(p[2]) \/ c.sn[p[2]] = 0},
                 LAMBDA p : Same(c.out[p[1]][p[2]][p[3]], IF c.sn[p[2]] = 0 THEN 2 * c.d[p[1]] * c.av[p[1]][p[2]][p[3]]
                     ELSE 2 * c.d[p[1]] * c.av[p[1]][p[2]][p[3]] + c.sn[p[2]] * Vertical([k \in 1 .. c.K |-> g(k, p[2], p[3])], c.K, p[1])))>>
    [] c.fn = "calculate_covariance" ->
         <<Fn(c, "calculate_covariance", LAMBDA j, i : Cov([t \in 1 .. c.N |-> c.f[t][j][i]], [t \in 1 .. c.N |-> c.g[t][j][i]]))>>
Clauses(c) == <<ForAll("arguments are not modified", DOMAIN c.kept, LAMBDA k : c.kept[k])>> \o (IF c.shape THEN ByFn(c) ELSE <<Holds(c.fn \o " returns the shape of its input", FALSE)>>)
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Cases)
        /\ LET c == Cases[l]
           IN  Report(c.id, IF "died" \in DOMAIN c THEN <<Holds("completes: " \o c.died, FALSE)>> ELSE Clauses(c))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=================================================================================
