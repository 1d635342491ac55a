--------------------------------- MODULE Globe ---------------------------------
(* A hemisphere extended to the globe.  lat is the sequence of its latitudes, *)
(* the equator (0) first or last.  A row of the result is <<latitude, row of   *)
(* the input it comes from, whether it is on the mirrored side>>.             *)
EXTENDS Integers, Sequences
Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
HasEquator(lat) == Len(lat) > 0 /\ (lat[1] = 0 \/ lat[Len(lat)] = 0)
Own(lat) == [j \in 1 .. Len(lat) |-> <<lat[j], j, FALSE>>]
Mirrored(lat) == [j \in 1 .. Len(lat) |-> <<-lat[j], j, TRUE>>]
Globe(lat) ==
  IF lat[1] = 0 THEN Rev(SubSeq(Mirrored(lat), 2, Len(lat))) \o Own(lat)
  ELSE Own(lat) \o Rev(SubSeq(Mirrored(lat), 1, Len(lat) - 1))
(* odd quantities change sign on the mirrored side                            *)
Value(row, x, odd) == IF row[3] /\ odd THEN -x[row[2]] ELSE x[row[2]]
================================================================================
