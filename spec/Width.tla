------------------------------- MODULE Width -------------------------------
(***************************************************************************)
(* Columns of a grapheme cluster, measured code point by code point.       *)
(* A code point is seen as its attributes                                  *)
(*   w    columns by itself (Ucd!Width)      vb   emoji variation base     *)
(*   zwj, vs15, vs16                          ri   regional indicator       *)
(*   tone emoji modifier                      xp   extended pictographic    *)
(*   vir  virama or invisible stacker         mc   spacing mark             *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL Ucd == INSTANCE Ucd

Attr(c) == [ w |-> Ucd!Width(c), vb |-> c.vb, zwj |-> c.sp = 8205, vs15 |-> c.sp = 65038, vs16 |-> c.sp = 65039,
             ri |-> c.gcb = "Regional_Indicator", tone |-> c.emod, xp |-> c.xp,
             vir |-> c.insc \in {"Virama", "Invisible_Stacker"}, mc |-> c.gc = "Spacing_Mark" ]

(* what is remembered of the code point measured last *)
Nobody == [joins |-> FALSE, vb |-> FALSE, one |-> FALSE]
Base(c) == [joins |-> c.xp \/ c.ri, vb |-> c.vb, one |-> c.w = 1]

(*  last, lw : the code point measured last and the width it was measured with                               *)
(*  open     : a variation selector or spacing mark may still change it                                      *)
(*  cur, tot : columns of the segment being measured, and of those in front of it                            *)
(*  vir      : a virama waits for its consonant      skip : a ZWJ waits for the code point it consumes       *)
(*  odd      : an odd number of regional indicators lies directly in front                                   *)
Start == [last |-> Nobody, lw |-> 0, open |-> FALSE, cur |-> 0, tot |-> 0, vir |-> FALSE, skip |-> FALSE, odd |-> FALSE]

Max(a, b) == IF a > b THEN a ELSE b
Columns(st) == Max(0, st.tot + st.cur)

Push(prev, c) ==
  LET st == [prev EXCEPT !.odd = c.ri /\ ~prev.odd] IN
  IF st.skip THEN [st EXCEPT !.skip = FALSE]
  ELSE IF c.zwj THEN IF st.vir THEN st ELSE [st EXCEPT !.skip = TRUE, !.lw = 0]
  ELSE IF c.vs16 /\ st.open THEN
         [st EXCEPT !.open = FALSE, !.cur = IF st.last.vb /\ st.last.one THEN 2 ELSE @]
  ELSE IF c.vs15 /\ st.open THEN
         [st EXCEPT !.tot = IF st.last.vb /\ st.lw = 2 THEN @ - 1 ELSE @]
  ELSE IF c.ri /\ prev.odd THEN [st EXCEPT !.last = Base(c)]
  ELSE IF c.tone /\ st.last.joins THEN st
  ELSE IF c.w > 0 THEN
         [st EXCEPT !.tot = IF st.vir THEN @ ELSE @ + st.cur, !.cur = IF st.vir THEN 2 ELSE c.w,
                    !.last = Base(c), !.lw = c.w, !.open = TRUE, !.vir = FALSE]
  ELSE IF c.vir THEN [st EXCEPT !.vir = TRUE]
  ELSE IF c.mc /\ st.open THEN [st EXCEPT !.cur = 2, !.open = FALSE, !.vir = FALSE]
  ELSE [st EXCEPT !.vir = FALSE]

RECURSIVE Run(_, _, _)
Run(st, s, i) == IF i > Len(s) THEN st ELSE Run(Push(st, s[i]), s, i + 1)
ClusterWidth(s) == Columns(Run(Start, s, 1))
=============================================================================
