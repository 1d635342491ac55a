-------------------------------- MODULE Grid --------------------------------
(* Latitude-longitude fields, the transformations acting on them, and the    *)
(* two grids of a QG field: the user's latitudes and the analysis grid.      *)
(* Fields are functions [1..n -> [1..m -> value]] (rows south to north).     *)
EXTENDS Integers, Sequences

Odd(n) == n % 2 = 1
\* rows of the analysis grid: the user's grid if it has an equator row, else one more row
NAnalysis(n) == IF Odd(n) THEN n ELSE n + 1
Equator(n) == (n + 1) \div 2                   \* row of the equator on an odd grid
HemiRows(na) == (na + 1) \div 2                \* rows of a hemisphere of the analysis grid, equator included
\* rows of an output in northern-hemisphere-only mode, on the user's grid
NorthRows(n) == (n + 1) \div 2
NorthFirst(n) == n - NorthRows(n) + 1          \* user's row of its first element

(* ---- actions on fields ------------------------------------------------------- *)
Wrap(i, m) == ((i - 1) % m) + 1
FlipRow(j, n) == n + 1 - j
Shift(f, d) == [j \in DOMAIN f |-> [i \in DOMAIN f[j] |-> f[j][Wrap(i - d, Len(f[j]))]]]   \* eastwards by d
Mirror(f, sign) == [j \in DOMAIN f |-> [i \in DOMAIN f[j] |-> sign * f[FlipRow(j, Len(f))][i]]]
North(f) == [j \in 1 .. NorthRows(Len(f)) |-> f[j + NorthFirst(Len(f)) - 1]]

(* ---- between an even user's grid of n rows (pole to pole) and its analysis grid
   of n + 1 rows: user's row j lies (n-j)/n.. between analysis rows j and j+1 ----- *)
ToUser(A, n) == [j \in 1 .. n |-> [i \in DOMAIN A[1] |-> (n - j) * A[j][i] + (j - 1) * A[j + 1][i]]]        \* times n-1
ToAnalysis(F, n) ==                                                                                     \* times n
  [j \in 1 .. n + 1 |-> [i \in DOMAIN F[1] |->
     (IF j <= n THEN (n + 1 - j) * F[j][i] ELSE 0) + (IF j > 1 THEN (j - 1) * F[j - 1][i] ELSE 0)]]
=============================================================================
