------------------------------- MODULE Lookup -------------------------------
(* Step functions over code points given as sorted rows <<lo, hi, value>> which cover the code space. *)
EXTENDS Integers, Sequences
RECURSIVE Find(_, _, _, _)
Find(rows, c, lo, hi) ==
  IF lo = hi THEN rows[lo][3] ELSE
  LET mid == (lo + hi + 1) \div 2 IN
  IF rows[mid][1] <= c THEN Find(rows, c, mid, hi) ELSE Find(rows, c, lo, mid - 1)
At(rows, c, outside) == IF c \in 0..1114111 THEN Find(rows, c, 1, Len(rows)) ELSE outside
=============================================================================
