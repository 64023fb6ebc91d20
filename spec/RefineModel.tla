----------------------------- MODULE RefineModel -----------------------------
(* The merging machine over all segmentations of texts of up to MaxSize elements by N components. *)
EXTENDS Refine, TLC
CONSTANTS N, MaxSize
VARIABLES segs, st, out, phase
(* a segmentation per set of inner ends; properties: two values in turn, or the same throughout *)
Seg(size, inner, flat) ==
  LET E == inner \cup {size}
      Nth(k) == CHOOSE e \in E : Cardinality({ x \in E : x <= e }) = k
  IN IF size = 0 THEN <<>> ELSE [k \in 1..Cardinality(E) |-> << Nth(k), IF flat THEN 0 ELSE k % 2 >>]
Init == phase = 0 /\ segs = <<>> /\ st = 0 /\ out = <<>>
Pick == /\ phase = 0 /\ phase' = 1 /\ out' = <<>> /\ st' = 0
        /\ \E size \in 0..MaxSize : segs' = << Seg(size, {}, TRUE), size >>     \* the size, then the components
Components == { Seg(segs[2], i, f) : i \in SUBSET (1..(segs[2] - 1)), f \in BOOLEAN }
Choose == /\ phase = 1 /\ phase' = 2 /\ out' = <<>>
          /\ \E s \in [1..N -> Components] : segs' = s /\ st' = Begin(s)
Step == phase = 2 /\ ~Finished(segs, st) /\ LET r == Consume(segs, st) IN st' = r.st /\ out' = Append(out, r.range) /\ UNCHANGED << segs, phase >>
Next == Pick \/ Choose \/ Step
Correct == phase = 2 /\ Finished(segs, st) => out = Refinement(segs)
Tiles == phase = 2 => /\ st.split = IF out = <<>> THEN 0 ELSE out[Len(out)][2]
                      /\ \A i \in DOMAIN out : out[i][1] < out[i][2] /\ out[i][1] = IF i = 1 THEN 0 ELSE out[i - 1][2]
(* no component is ever drained past the split *)
InStep == phase = 2 => \A i \in 1..N : st.next[i] <= Len(segs[i]) + 1 /\ st.pos[i] >= st.split
=============================================================================
