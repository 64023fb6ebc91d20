----------------------------- MODULE Multistage -----------------------------
(***************************************************************************)
(* Multistage tables: stage 1 maps a block of the source to a stored block,*)
(* stage 2 holds the stored blocks as indices into the values of stage 3.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Block(src, b, k) == SubSeq(src, (k - 1) * b + 1, k * b)          \* k-th block, 1-based
Blocks(src, b) == { Block(src, b, k) : k \in 1..(Len(src) \div b) }
Values(src) == { src[i] : i \in DOMAIN src }

(* lookup of index i (0-based) in tables whose entries are 0-based *)
Lookup(s1, s2, s3, b, i) == s3[s2[s1[i \div b + 1] * b + (i % b) + 1] + 1]
(* the whole tables represent the source *)
Represents(s1, s2, s3, b, src) ==
  /\ Len(s1) = Len(src) \div b /\ Len(s2) % b = 0
  /\ \A k \in DOMAIN s1 : s1[k] >= 0 /\ (s1[k] + 1) * b <= Len(s2)
  /\ \A k \in DOMAIN s2 : s2[k] \in 0..(Len(s3) - 1)
  /\ \A i \in 0..(Len(src) - 1) : Lookup(s1, s2, s3, b, i) = src[i + 1]
(* what get(index, fallback) answers, for every index *)
Answer(src, max, i, fallback) == IF i \in 0..max THEN src[i + 1] ELSE src[fallback + 1]
(* the element types cannot hold the tables *)
Overflows(src, b, cap1, cap2) == Cardinality(Blocks(src, b)) > cap1 \/ Cardinality(Values(src)) > cap2

(* ---- the generator as a machine: one block per step --------------------- *)
Index(s, v) == IF \E i \in DOMAIN s : s[i] = v THEN CHOOSE i \in DOMAIN s : s[i] = v ELSE 0
RECURSIVE Intern(_, _, _, _)     \* stage 3 indices for a block, from left to right
Intern(blk, i, s2, s3) ==
  IF i > Len(blk) THEN [s2 |-> s2, s3 |-> s3]
  ELSE IF Index(s3, blk[i]) # 0 THEN Intern(blk, i + 1, Append(s2, Index(s3, blk[i]) - 1), s3)
  ELSE Intern(blk, i + 1, Append(s2, Len(s3)), Append(s3, blk[i]))
AddBlock(t, src, b, k) ==
  LET blk == Block(src, b, k)
      same == { j \in 1..(k - 1) : Block(src, b, j) = blk }
  IN IF same # {} THEN [t EXCEPT !.s1 = Append(@, t.s1[CHOOSE j \in same : TRUE])]
     ELSE LET n == Intern(blk, 1, t.s2, t.s3)
          IN [s1 |-> Append(t.s1, Len(t.s2) \div b), s2 |-> n.s2, s3 |-> n.s3]
=============================================================================
