------------------------------ MODULE Units_Model ------------------------------
(* Every formula, evaluated in exact rational arithmetic in changing units: the *)
(* result changes by its dimension.  The units change one factor of two at a    *)
(* time; all inputs are converted along.                                       *)
EXTENDS Units, TLC
CONSTANT Reach
Signed == {x - Reach : x \in 0 .. 2 * Reach}
VARIABLES f, unit, val
vars == <<f, unit, val>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE Gcd(b, a % b)
Rat(n, d) == LET g == Gcd(IF n < 0 THEN -n ELSE n, d) IN <<n \div g, d \div g>>
Pow2(x) == IF x >= 0 THEN <<2 ^ x, 1>> ELSE <<1, 2 ^ (-x)>>
Mult(a, b) == LET x == Rat(a[1], b[2]) y == Rat(b[1], a[2]) IN <<x[1] * y[1], x[2] * y[2]>>
Inv(a) == <<a[2], a[1]>>                                     \* all values are positive
Plus(a, b) == LET g == Gcd(a[2], b[2]) IN Rat(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
Plain == [n \in DOMAIN Inputs |-> IF n \in {"u", "theta", "omega", "dry_gas_constant", "heating_rate", "vort"} THEN 1 ELSE IF n \in {"v", "cp", "area"} THEN 2 ELSE 1]
RECURSIVE Eval(_, _)
Eval(e, env) == CASE e.op = "v" -> env[e.n] [] e.op = "c" -> <<e.x, 1>>
                  [] e.op = "t" -> Mult(Eval(e.a, env), Eval(e.b, env))
                  [] e.op = "q" -> Mult(Eval(e.a, env), Inv(Eval(e.b, env)))
                  [] OTHER -> Plus(Eval(e.a, env), Eval(e.b, env))
All == [n \in (DOMAIN Formulas) \cup (DOMAIN Numbers) |-> IF n \in DOMAIN Formulas THEN Formulas[n] ELSE Numbers[n]]
Env(u) == [n \in DOMAIN Inputs |-> Mult(<<Plain[n], 1>>, Pow2(Shift(Inputs[n], u)))]
Init == /\ f \in DOMAIN All /\ unit = <<0, 0, 0, 0>> /\ val = Eval(All[f], Env(unit))
Change(i, s) == /\ unit[i] + s \in Signed
                /\ unit' = [unit EXCEPT ![i] = @ + s]
                /\ val' = Eval(All[f], Env(unit'))
                /\ f' = f
Next == \E i \in 1 .. 4, s \in {1, -1} : Change(i, s)
Spec == Init /\ [][Next]_vars
Homogeneous == \A n \in DOMAIN All : Dim(All[n]) # Bad
AsTabled == Homogeneous /\ (\A n \in DOMAIN Formulas : Dim(Formulas[n]) = Outputs[n]) /\ (\A n \in DOMAIN Numbers : Dim(Numbers[n]) = One)
\* the value in any units is the value in plain units times the power of two of its dimension
OnlyItsDimension == val = Mult(Eval(All[f], Env(<<0, 0, 0, 0>>)), Pow2(Shift(Dim(All[f]), unit)))
\* changing back restores
Reversible == [][\A i \in 1 .. 4 : unit'[i] # unit[i] =>
   val = Mult(val', Pow2(-(unit'[i] - unit[i]) * Dim(All[f])[i]))]_vars
================================================================================
