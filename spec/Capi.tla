-------------------------------- MODULE Capi --------------------------------
(***************************************************************************)
(* The C interface: byte-stream converters behind handles, conversion into *)
(* a destination of limited size, and the spare bits of a code point.      *)
(***************************************************************************)
EXTENDS Utf

(* ---- converters: a handle is dead (Dead) or holds a decoder state -------- *)
Dead == [need |-> -1, have |-> 0, acc |-> 0]
(* one call of u8u32_stream_convert_run: the new state, the result and the output cell *)
Feed(st, b, cell) == LET r == ConvStep(st, b) IN
  [st |-> r.st, ret |-> IF r.res >= 0 THEN 1 ELSE 0, cell |-> IF r.res >= 0 THEN r.res ELSE cell]

(* ---- u32u8_convert -------------------------------------------------------- *)
(* declarative: everything, or failure *)
Result(src, room) == LET all == Encode8All(src) IN IF Len(all) <= room THEN Len(all) ELSE -1
(* the characters stored: all of them, or on failure those in front of the first that does not fit *)
Fits(src, room) == { k \in 0..Len(src) : Len(Encode8All(SubSeq(src, 1, k))) <= room }
Stored(src, room) == Encode8All(SubSeq(src, 1, CHOOSE k \in Fits(src, room) : \A j \in Fits(src, room) : j <= k))
(* the loop *)
RECURSIVE Loop(_, _, _)
Loop(src, room, acc) ==
  IF src = <<>> THEN [ret |-> Len(acc), bytes |-> acc]
  ELSE LET e == Encode8(Head(src)) IN
       IF Len(e) > room THEN [ret |-> -1, bytes |-> acc]
       ELSE Loop(Tail(src), room - Len(e), acc \o e)

(* ---- spare bits: a word is [spare: 11 bits, code: 21 bits] ------------------ *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
BitOf(w, i) == (w.spare \div Pow2(i)) % 2
BitOn(w, i) == [w EXCEPT !.spare = IF BitOf(w, i) = 1 THEN @ ELSE @ + Pow2(i)]
BitOff(w, i) == [w EXCEPT !.spare = IF BitOf(w, i) = 1 THEN @ - Pow2(i) ELSE @]
Cleared(w) == [w EXCEPT !.spare = 0]
=============================================================================
