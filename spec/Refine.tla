------------------------------- MODULE Refine -------------------------------
(***************************************************************************)
(* Common refinement of several segmentations of one text.  A segmentation *)
(* is a sequence of runs << end, property >> with growing ends, the last   *)
(* of which is the length of the text.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Ends(seg) == { seg[i][1] : i \in DOMAIN seg }
Containing(seg, pos) == seg[CHOOSE i \in DOMAIN seg : pos < seg[i][1] /\ (i = 1 \/ seg[i - 1][1] <= pos)][2]
RECURSIVE Cut(_, _, _)
Cut(segs, from, ends) ==
  IF ends = {} THEN <<>> ELSE
  LET e == CHOOSE x \in ends : \A y \in ends : x <= y IN
  << << from, e, [i \in DOMAIN segs |-> Containing(segs[i], from)] >> >> \o Cut(segs, e, ends \ {e})
(* ranges << start, end, properties >> *)
Refinement(segs) == Cut(segs, 0, UNION { Ends(segs[i]) : i \in DOMAIN segs })

(* ---- the merging machine: every component stands behind the run it delivered last ---- *)
Begin(segs) == [next |-> [i \in DOMAIN segs |-> 1], pos |-> [i \in DOMAIN segs |-> 0], prop |-> [i \in DOMAIN segs |-> 0], split |-> 0]
Size(segs) == IF segs[1] = <<>> THEN 0 ELSE segs[1][Len(segs[1])][1]
Finished(segs, st) == st.split >= Size(segs)
(* components whose run is used up deliver the next one *)
Refill(segs, st) ==
  LET used == { i \in DOMAIN segs : st.pos[i] <= st.split } IN
  [next |-> [i \in DOMAIN segs |-> st.next[i] + (IF i \in used THEN 1 ELSE 0)],
   pos |-> [i \in DOMAIN segs |-> IF i \in used THEN segs[i][st.next[i]][1] ELSE st.pos[i]],
   prop |-> [i \in DOMAIN segs |-> IF i \in used THEN segs[i][st.next[i]][2] ELSE st.prop[i]],
   split |-> st.split]
Min(f) == CHOOSE x \in { f[i] : i \in DOMAIN f } : \A i \in DOMAIN f : x <= f[i]
Consume(segs, st) == LET r == Refill(segs, st) IN
                     [st |-> [r EXCEPT !.split = Min(r.pos)], range |-> << st.split, Min(r.pos), r.prop >>]
=============================================================================
