--------------------------------- MODULE VF ---------------------------------
(* Shared vocabulary of all falwa specifications: fixed-point arithmetic on  *)
(* TLC's 32-bit integers, sums, and total verdicts.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Close(a, b, t) == Abs(a - b) <= t
Range0(n) == 0 .. (n - 1)

(* ---- 20-bit fixed point: the integer x stands for x / ONE -------------- *)
ONE == 1048576
(* Mul rounds down; |a| <= 2*ONE (|b| <= ONE) never overflows 32 bits.      *)
Mul(a, b) == ((a \div 1024) * b + (((a % 1024) * b) \div 1024)) \div 1024
Mul3(a, b, c) == Mul(Mul(a, b), c)
Sq(a) == Mul(a, a)
\* quotient, |a| < 2*ONE, 0 < b < 2*ONE
DivP(a, b) == LET x == a * 1024 IN (x \div b) * 1024 + ((x % b) * 1024) \div b
Div(a, b) == IF a >= 0 THEN DivP(a, b) ELSE -DivP(-a, b)

(* Sum of Op(i) for i in lo..hi                                             *)
Sum(lo, hi, Op(_)) ==
  LET s[i \in (lo - 1) .. hi] == IF i < lo THEN 0 ELSE s[i - 1] + Op(i)
  IN  IF hi < lo THEN 0 ELSE s[hi]
MaxOver(S, Op(_)) ==
  LET vals == {Op(x) : x \in S}
  IN  CHOOSE m \in vals : \A v \in vals : v <= m
MinOver(S, Op(_)) ==
  LET vals == {Op(x) : x \in S}
  IN  CHOOSE m \in vals : \A v \in vals : v >= m

(* ---- verdicts ----------------------------------------------------------- *)
(* A clause is judged on a finite domain; bad is the set of its elements     *)
(* where it fails.                                                           *)
Clause(name, dom, bad) == [n |-> name, of |-> Cardinality(dom), bad |-> bad]
Holds(name, b) == [n |-> name, of |-> 1, bad |-> IF b THEN {} ELSE {"false"}]
ForAll(name, dom, Ok(_)) == Clause(name, dom, {x \in dom : ~ Ok(x)})

(* ToString of a set element: CHOOSE is deterministic                        *)
Report(id, cls) ==
  LET fails == SelectSeq(cls, LAMBDA x : x.bad # {})
      pts   == Sum(1, Len(cls), LAMBDA i : cls[i].of)
  IN  PrintT("VERDICT|" \o ToJson(
        [id |-> id, n |-> Len(cls), pts |-> pts,
         fails |-> [i \in 1 .. Len(fails) |->
            [n |-> fails[i].n, of |-> fails[i].of, bad |-> Cardinality(fails[i].bad),
             ex |-> ToString(CHOOSE x \in fails[i].bad : TRUE)]]]))
=============================================================================
