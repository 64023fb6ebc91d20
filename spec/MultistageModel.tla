-------------------------- MODULE MultistageModel --------------------------
(* For every source over a few values and every block size the generator's tables represent what was processed so far. *)
EXTENDS Multistage, TLC
CONSTANTS MaxLen, Vals, Sizes
VARIABLES src, b, k, t
Init == /\ b \in Sizes
        /\ \E n \in 1..(MaxLen \div b) : src \in [1..(n * b) -> Vals]
        /\ k = 0 /\ t = [s1 |-> <<>>, s2 |-> <<>>, s3 |-> <<>>]
Next == /\ k < Len(src) \div b
        /\ t' = AddBlock(t, src, b, k + 1)
        /\ k' = k + 1 /\ UNCHANGED << src, b >>
Right == /\ Represents(t.s1, t.s2, t.s3, b, SubSeq(src, 1, k * b))
         /\ Len(t.s2) = b * Cardinality(Blocks(SubSeq(src, 1, k * b), b))
         /\ Len(t.s3) = Cardinality(Values(SubSeq(src, 1, k * b)))
=============================================================================
