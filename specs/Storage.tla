-------------------------------- MODULE Storage --------------------------------
(* How an array of numbers can lie in memory.  A store is a memory of bytes and *)
(* the way to read it: where the first element is, how far apart neighbours are *)
(* along each axis, how many bytes an element has and in which order.  What an  *)
(* array *is* are the values it reads; everything else is storage.  The analysis*)
(* must be a function of the values alone.                                      *)
EXTENDS Integers, Sequences, FiniteSets
Rows == 0 .. 1
Cols == 0 .. 2
Cells == Rows \X Cols
(* store: [mem : address -> byte, at, step : <<bytes, bytes>>, width : 2 or 4,  *)
(*         high : TRUE iff the more significant byte is first,                  *)
(*         whole : an integer type, frozen : may not be written to]             *)
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN 1 ELSE x * Power(x, n - 1)
Read(s, i, j) ==
  LET a == s.at + i * s.step[1] + j * s.step[2]
      from[b \in 0 .. s.width] == IF b = s.width THEN 0               \* the number made of bytes b, b+1, ...
                                  ELSE IF s.high THEN Power(256, s.width - 1 - b) * s.mem[a + b] + from[b + 1]
                                       ELSE s.mem[a + b] + 256 * from[b + 1]
  IN  from[0]
Value(s) == [c \in Cells |-> Read(s, c[1], c[2])]
InBounds(s) == \A c \in Cells : \A b \in 0 .. s.width - 1 : s.at + c[1] * s.step[1] + c[2] * s.step[2] + b \in DOMAIN s.mem
NoOverlap(s) == \A c, d \in Cells : c # d =>
                  LET x == s.at + c[1] * s.step[1] + c[2] * s.step[2]  y == s.at + d[1] * s.step[1] + d[2] * s.step[2]
                  IN  x + s.width <= y \/ y + s.width <= x

(* a store with the values v laid out as asked; memory that belongs to no       *)
(* element is filled with something that is not a value                         *)
Junk == 99
Lay(v, at, step, width, high, whole, frozen) ==
  LET addr(c) == at + c[1] * step[1] + c[2] * step[2]
      top == CHOOSE m \in {addr(c) + width : c \in Cells} : \A c \in Cells : addr(c) + width <= m
      byte(c, b) == (v[c] \div Power(256, IF high THEN width - 1 - b ELSE b)) % 256
  IN  [mem |-> [a \in 0 .. top |->
                  IF \E c \in Cells : \E b \in 0 .. width - 1 : addr(c) + b = a
                  THEN LET c == CHOOSE x \in Cells : \E b \in 0 .. width - 1 : addr(x) + b = a IN byte(c, a - addr(c))
                  ELSE Junk],
       at |-> at, step |-> step, width |-> width, high |-> high, whole |-> whole, frozen |-> frozen]

(* ---- what a user may do to an array without changing it --------------------- *)
Again(s, at, step) == Lay(Value(s), at, step, s.width, s.high, s.whole, FALSE)
RowMajor(s) == Again(s, 0, <<3 * s.width, s.width>>)
ColumnMajor(s) == Again(s, 0, <<s.width, 2 * s.width>>)
EverySecond(s) == Again(s, 0, <<12 * s.width, 2 * s.width>>)        \* a subsample of a larger array
UpsideDown(s) == Again(s, 3 * s.width, <<-(3 * s.width), s.width>>) \* read backwards, first axis
Reversed(s) == Again(s, 2 * s.width, <<3 * s.width, -(s.width)>>)   \* read backwards, last axis
Shifted(s) == Again(s, 1, <<3 * s.width, s.width>>)                 \* not on a boundary of elements
As(s, width, high, whole) == Lay(Value(s), 0, <<3 * width, width>>, width, high, whole, FALSE)
Swapped(s) == As(s, s.width, ~ s.high, s.whole)
Single(s) == As(s, 2, FALSE, FALSE)
Double(s) == As(s, 4, FALSE, FALSE)
Whole(s) == As(s, 4, FALSE, TRUE)
Frozen(s) == [s EXCEPT !.frozen = TRUE]
Steps == {"rows", "columns", "sample", "updown", "reversed", "shifted", "swapped", "single", "double", "whole", "frozen"}
Do(s, x) == CASE x = "rows" -> RowMajor(s) [] x = "columns" -> ColumnMajor(s) [] x = "sample" -> EverySecond(s)
              [] x = "updown" -> UpsideDown(s) [] x = "reversed" -> Reversed(s) [] x = "shifted" -> Shifted(s)
              [] x = "swapped" -> Swapped(s) [] x = "single" -> Single(s) [] x = "double" -> Double(s)
              [] x = "whole" -> Whole(s) [] x = "frozen" -> Frozen(s)
(* what numpy tells about an array                                              *)
Flags(s) == [rowmajor |-> s.step = <<3 * s.width, s.width>>, columnmajor |-> s.step = <<s.width, 2 * s.width>>,
             aligned |-> s.at % s.width = 0, native |-> ~ s.high, whole |-> s.whole, writable |-> ~ s.frozen,
             single |-> s.width = 2]
================================================================================
