----------------------------- MODULE HangulModel -----------------------------
(* Decomposition and composition of Hangul are mutually inverse; normalization agrees with them. *)
EXTENDS Norm, NormData, TLC
VARIABLES cp, blk
Init == cp = 0 /\ blk \in 0..63
Next == cp = 0 /\ blk' = blk /\ cp' \in { x \in (4300..4620) \cup (44000..55300) : x % 64 = blk }
Inverse == IsSyllable(cp) => LET j == Jamos(cp) IN
             /\ Len(j) \in 2..3 /\ IsL(j[1]) /\ IsV(j[2]) /\ (Len(j) = 3 => IsT(j[3]))
             /\ ComposeJamos(j[1], j[2], IF Len(j) = 3 THEN j[3] ELSE 0) = cp
             /\ Normal(<< cp >>, "NFD") = j /\ Normal(j, "NFC") = << cp >> /\ Normal(<< cp >>, "NFC") = << cp >>
Onto == cp # 0 => \A l \in {LBase, LBase + 7, LBase + 18}, v \in {VBase, VBase + 20} :
          LET s == ComposeJamos(l, v, IF IsT(cp) THEN cp ELSE 0) IN
          IsSyllable(s) /\ Jamos(s) = IF IsT(cp) THEN << l, v, cp >> ELSE << l, v >>
(* everything else composes with jamo and syllables only as the mappings say *)
Others == cp # 0 /\ ~IsSyllable(cp) =>
            /\ ComposeJamos(cp, VBase, 0) = 0 \/ IsL(cp)
            /\ ComposeJamos(LBase, cp, 0) = 0 \/ IsV(cp)
            /\ Pair(cp, VBase) = 0 \/ IsL(cp)
            /\ Pair(LBase, cp) = 0 \/ IsV(cp)
            /\ Pair(SBase, cp) = 0 \/ IsT(cp)
            /\ Pair(SBase + 1, cp) = 0
=============================================================================
