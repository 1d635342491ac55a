---------------------------- MODULE Integrate_Model ----------------------------
(* A budget integrated step by step as time passes: the running integrals are *)
(* the trapezoidal ones over the interval so far, intervals add up, and a     *)
(* point inserted on the straight line between two others changes nothing.    *)
EXTENDS Integrate, TLC
CONSTANTS N, V, Steps
VARIABLES t, L, X, acc
vars == <<t, L, X, acc>>
Init == /\ t = <<0>>
        /\ \E l \in V, a \in V, b \in V : L = <<l>> /\ X = <<<<a>>, <<b>>, <<a>>>>
        /\ acc = <<0, 0, 0>>
Next == /\ Len(t) < N
        /\ \E d \in Steps, l \in V, a \in V, b \in V :
             LET new == <<a, b, l>> IN
             /\ t' = Append(t, t[Len(t)] + d)
             /\ L' = Append(L, l)
             /\ X' = [k \in 1 .. 3 |-> Append(X[k], new[k])]
             /\ acc' = [k \in 1 .. 3 |-> acc[k] + d * (X[k][Len(t)] + new[k])]
Spec == Init /\ [][Next]_vars
Part(s, i, j) == [k \in 1 .. j - i + 1 |-> s[i + k - 1]]
Running == \A k \in 1 .. 3 : acc[k] = Trap2(t, X[k])
Closes == 2 * Change(L) = Trap2(t, X[1]) + Trap2(t, X[2]) + Trap2(t, X[3]) + Residual2(t, L, X)
Additive ==
  \A m \in 1 .. Len(t) :
    LET R(i, j) == Residual2(Part(t, i, j), Part(L, i, j), [k \in 1 .. 3 |-> Part(X[k], i, j)])
    IN  R(1, m) + R(m, Len(t)) = R(1, Len(t))
Shifted == Trap2([i \in 1 .. Len(t) |-> t[i] + 7], X[1]) = Trap2(t, X[1])
Refined ==                              \* a point halfway, on the line
  \A m \in 1 .. Len(t) - 1 :
    LET ins(s, x) == Part(s, 1, m) \o <<x>> \o Part(s, m + 1, Len(s))
        dbl(s) == [i \in 1 .. Len(s) |-> 2 * s[i]]
    IN  Trap2(ins(dbl(t), t[m] + t[m + 1]), ins(dbl(X[1]), X[1][m] + X[1][m + 1])) = 4 * Trap2(t, X[1])
Still == (\A i \in 1 .. Len(t) : X[1][i] = X[1][1]) => Trap2(t, X[1]) = 2 * (t[Len(t)] - t[1]) * X[1][1]
Found == \A own \in {"", "when"} : \A P \in SUBSET {"time", "valid_time", "when"} :
           LET n == Lookup(own, TimeNames, P) IN n = "KeyError" \/ n \in P
================================================================================
