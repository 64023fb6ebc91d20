-------------------------------- MODULE Norm --------------------------------
(***************************************************************************)
(* Normalization (Unicode Standard 3.11, UAX #15).  A text is a sequence   *)
(* of code points; the data of the code points are parameters.             *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Ccc(_),        \* canonical combining class
          Dm(_),         \* decomposition mapping, <<>> if there is none
          Canon(_),      \* that mapping is canonical
          Primary(_, _), \* primary composite of a pair by the mappings, 0 if there is none
          Second(_)      \* second of some primary composite by the mappings

Forms == {"NFC", "NFD", "NFKC", "NFKD"}
Compat(f) == f \in {"NFKC", "NFKD"}
Composed(f) == f \in {"NFC", "NFKC"}

(* ---- Hangul (3.12) ------------------------------------------------------- *)
SBase == 44032
LBase == 4352
VBase == 4449
TBase == 4519
LCount == 19
VCount == 21
TCount == 28
NCount == VCount * TCount
SCount == LCount * NCount
IsSyllable(c) == c \in SBase..(SBase + SCount - 1)
IsL(c) == c \in LBase..(LBase + LCount - 1)
IsV(c) == c \in VBase..(VBase + VCount - 1)
IsT(c) == c \in (TBase + 1)..(TBase + TCount - 1)
Jamos(s) ==
  LET i == s - SBase
      lv == << LBase + (i \div NCount), VBase + ((i % NCount) \div TCount) >>
  IN IF i % TCount = 0 THEN lv ELSE Append(lv, TBase + (i % TCount))
ComposeLV(l, v) == SBase + ((l - LBase) * VCount + (v - VBase)) * TCount
(* composition of two or three jamo; t = 0: none.  0 if they do not compose *)
ComposeJamos(l, v, t) ==
  IF ~IsL(l) \/ ~IsV(v) THEN 0
  ELSE IF t = 0 THEN ComposeLV(l, v)
  ELSE IF IsT(t) THEN ComposeLV(l, v) + (t - TBase) ELSE 0

(* ---- decomposition -------------------------------------------------------- *)
Applies(c, k) == Dm(c) # <<>> /\ (k \/ Canon(c))
Level(c, k) == IF IsSyllable(c) THEN Jamos(c) ELSE IF Applies(c, k) THEN Dm(c) ELSE << c >>
RECURSIVE Full(_, _), FullAll(_, _)
Full(c, k) == IF IsSyllable(c) THEN Jamos(c) ELSE IF Applies(c, k) THEN FullAll(Dm(c), k) ELSE << c >>
FullAll(s, k) == IF s = <<>> THEN <<>> ELSE Full(Head(s), k) \o FullAll(Tail(s), k)

(* ---- canonical ordering (D108, D109) -------------------------------------- *)
Reorderable(a, b) == Ccc(a) > Ccc(b) /\ Ccc(b) > 0
RECURSIVE Insert(_, _)
Insert(s, c) == IF s # <<>> /\ Reorderable(s[Len(s)], c)
                THEN Append(Insert(SubSeq(s, 1, Len(s) - 1), c), s[Len(s)])
                ELSE Append(s, c)
RECURSIVE OrderInto(_, _)
OrderInto(done, s) == IF s = <<>> THEN done ELSE OrderInto(Insert(done, Head(s)), Tail(s))
Order(s) == OrderInto(<<>>, s)
Ordered(s) == \A i \in 1..(Len(s) - 1) : ~Reorderable(s[i], s[i + 1])

(* ---- canonical composition (D115-D117) ------------------------------------- *)
Pair(a, b) == IF IsL(a) /\ IsV(b) THEN ComposeLV(a, b)
              ELSE IF IsSyllable(a) /\ (a - SBase) % TCount = 0 /\ IsT(b) THEN a + (b - TBase)
              ELSE Primary(a, b)
LastStarter(s) == LET S == { i \in DOMAIN s : Ccc(s[i]) = 0 } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
(* c, which follows done, is blocked from the starter at l *)
Blocked(done, l, c) == \E i \in (l + 1)..Len(done) : Ccc(done[i]) = 0 \/ Ccc(done[i]) >= Ccc(c)
RECURSIVE ComposeInto(_, _)
ComposeInto(done, s) ==
  IF s = <<>> THEN done
  ELSE LET c == Head(s)
           l == LastStarter(done)
           p == IF l = 0 THEN 0 ELSE IF Blocked(done, l, c) THEN 0 ELSE Pair(done[l], c)
       IN ComposeInto(IF p = 0 THEN Append(done, c) ELSE [done EXCEPT ![l] = p], Tail(s))
Compose(s) == ComposeInto(<<>>, s)

(* ---- the normal forms ------------------------------------------------------- *)
Decomposed(s, k) == Order(FullAll(s, k))
Normal(s, f) == LET d == Decomposed(s, Compat(f)) IN IF Composed(f) THEN Compose(d) ELSE d

(* ---- quick check (UAX #15, section 9) ----------------------------------------- *)
MayCompose(c) == Second(c) \/ IsV(c) \/ IsT(c)
Qc(c, f) ==
  IF Normal(<< c >>, f) # << c >> THEN "No"
  ELSE IF Composed(f) /\ MayCompose(Head(Full(c, FALSE))) THEN "Maybe"
  ELSE "Yes"
RECURSIVE QuickFrom(_, _, _, _, _)
QuickFrom(s, f, i, last, res) ==
  IF i > Len(s) THEN res
  ELSE IF Ccc(s[i]) # 0 /\ last > Ccc(s[i]) THEN "No"
  ELSE LET q == Qc(s[i], f) IN
       IF q = "No" THEN "No" ELSE QuickFrom(s, f, i + 1, Ccc(s[i]), IF q = "Maybe" THEN q ELSE res)
Quick(s, f) == QuickFrom(s, f, 1, 0, "Yes")

(* ---- streaming: a new segment may start with c -------------------------------- *)
Safe(c, f) == /\ Ccc(c) = 0
              /\ Ccc(Head(Full(c, Compat(f)))) = 0
              /\ Composed(f) => Qc(c, f) = "Yes"
=============================================================================
