-------------------------------- MODULE Word --------------------------------
(***************************************************************************)
(* Word boundaries (UAX #29 of Unicode 15.1) over classes [w: Word_Break,  *)
(* ep: Extended_Pictographic].                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

AHLetter == {"ALetter", "Hebrew_Letter"}
MidNumLetQ == {"MidNumLet", "Single_Quote"}
Newlines == {"Newline", "CR", "LF"}
Skipped == {"Extend", "Format", "ZWJ"}          \* WB4

(* ---- declarative -------------------------------------------------------- *)
(* WB4: what the rules below WB4 see: the text without the ignored characters (those at the start of the text
   or behind a line break stand for themselves). Kept(s) = the positions that stay. *)
Kept(s) == { i \in 1..Len(s) : s[i].w \notin Skipped \/ i = 1 \/ s[i - 1].w \in Newlines }
MaxBelow(K, i) == LET B == { k \in K : k < i } IN IF B = {} THEN 0 ELSE CHOOSE k \in B : \A j \in B : j <= k
MinAbove(K, i) == LET B == { k \in K : k > i } IN IF B = {} THEN 0 ELSE CHOOSE k \in B : \A j \in B : j >= k
W(s, i) == IF i = 0 THEN "none" ELSE s[i].w

RIBefore(s, K, i) ==   \* regional indicators in an unbroken row of kept characters ending at i
  LET C == { j \in K \cup {0} : j <= i /\ (j = 0 \/ s[j].w /= "Regional_Indicator") }
      z == CHOOSE j \in C : \A k \in C : k <= j
  IN Cardinality({ j \in K : z < j /\ j <= i })

Boundary(s, i) ==      \* between s[i] and s[i+1]
  LET a == s[i].w
      b == s[i + 1].w IN
  IF a = "CR" /\ b = "LF" THEN FALSE                                                        \* WB3
  ELSE IF a \in Newlines \/ b \in Newlines THEN TRUE                                        \* WB3a, WB3b
  ELSE IF a = "ZWJ" /\ s[i + 1].ep THEN FALSE                                               \* WB3c
  ELSE IF a = "WSegSpace" /\ b = "WSegSpace" THEN FALSE                                     \* WB3d
  ELSE IF b \in Skipped THEN FALSE                                                          \* WB4
  ELSE
  LET K == Kept(s)
      p == MaxBelow(K, i + 1)
      A == W(s, p)
      AA == W(s, MaxBelow(K, p))
      N == W(s, MinAbove(K, i + 1))
  IN ~ \/ A \in AHLetter /\ b \in AHLetter                                                  \* WB5
       \/ A \in AHLetter /\ b \in {"MidLetter"} \cup MidNumLetQ /\ N \in AHLetter           \* WB6
       \/ AA \in AHLetter /\ A \in {"MidLetter"} \cup MidNumLetQ /\ b \in AHLetter          \* WB7
       \/ A = "Hebrew_Letter" /\ b = "Single_Quote"                                         \* WB7a
       \/ A = "Hebrew_Letter" /\ b = "Double_Quote" /\ N = "Hebrew_Letter"                  \* WB7b
       \/ AA = "Hebrew_Letter" /\ A = "Double_Quote" /\ b = "Hebrew_Letter"                 \* WB7c
       \/ A = "Numeric" /\ b = "Numeric"                                                    \* WB8
       \/ A \in AHLetter /\ b = "Numeric"                                                   \* WB9
       \/ A = "Numeric" /\ b \in AHLetter                                                   \* WB10
       \/ AA = "Numeric" /\ A \in {"MidNum"} \cup MidNumLetQ /\ b = "Numeric"               \* WB11
       \/ A = "Numeric" /\ b \in {"MidNum"} \cup MidNumLetQ /\ N = "Numeric"                \* WB12
       \/ A = "Katakana" /\ b = "Katakana"                                                  \* WB13
       \/ A \in AHLetter \cup {"Numeric", "Katakana", "ExtendNumLet"} /\ b = "ExtendNumLet" \* WB13a
       \/ A = "ExtendNumLet" /\ b \in AHLetter \cup {"Numeric", "Katakana"}                 \* WB13b
       \/ A = "Regional_Indicator" /\ b = "Regional_Indicator" /\ RIBefore(s, K, p) % 2 = 1 \* WB15, WB16

RECURSIVE WordLens(_, _)
WordLens(s, from) ==
  IF from > Len(s) THEN <<>> ELSE
  LET E == { i \in from..Len(s) : i = Len(s) \/ Boundary(s, i) }
      e == CHOOSE i \in E : \A j \in E : i <= j
  IN << e - from + 1 >> \o WordLens(s, e + 1)

(* ---- machine: raw = class behind, p, pp = the last two kept classes, look = next kept class to come --- *)
(* only these distinctions matter: *)
Look(c) == IF c.w \in {"ALetter", "Hebrew_Letter", "Numeric"} THEN c.w ELSE "none"
Begin(c) == [raw |-> c.w, p |-> c.w, pp |-> "none", ri |-> IF c.w = "Regional_Indicator" THEN 1 ELSE 0]
Keep(c) == IF c \in {"ALetter", "Hebrew_Letter", "Numeric"} THEN c ELSE "none"
Step(st, c) ==
  IF c.w \in Skipped /\ st.raw \notin Newlines THEN [st EXCEPT !.raw = c.w]
  ELSE [raw |-> c.w, p |-> c.w, pp |-> Keep(st.p),
        ri |-> IF c.w = "Regional_Indicator" THEN 1 - st.ri ELSE 0]
Break(st, c, N) ==
  LET a == st.raw
      b == c.w
      A == st.p
      AA == st.pp IN
  IF a = "CR" /\ b = "LF" THEN FALSE
  ELSE IF a \in Newlines \/ b \in Newlines THEN TRUE
  ELSE IF a = "ZWJ" /\ c.ep THEN FALSE
  ELSE IF a = "WSegSpace" /\ b = "WSegSpace" THEN FALSE
  ELSE IF b \in Skipped THEN FALSE
  ELSE ~ \/ A \in AHLetter \cup {"Numeric"} /\ b \in AHLetter \cup {"Numeric"}
         \/ A \in AHLetter /\ b \in {"MidLetter"} \cup MidNumLetQ /\ N \in AHLetter
         \/ AA \in AHLetter /\ A \in {"MidLetter"} \cup MidNumLetQ /\ b \in AHLetter
         \/ A = "Hebrew_Letter" /\ b = "Single_Quote"
         \/ A = "Hebrew_Letter" /\ b = "Double_Quote" /\ N = "Hebrew_Letter"
         \/ AA = "Hebrew_Letter" /\ A = "Double_Quote" /\ b = "Hebrew_Letter"
         \/ AA = "Numeric" /\ A \in {"MidNum"} \cup MidNumLetQ /\ b = "Numeric"
         \/ A = "Numeric" /\ b \in {"MidNum"} \cup MidNumLetQ /\ N = "Numeric"
         \/ A = "Katakana" /\ b = "Katakana"
         \/ A \in AHLetter \cup {"Numeric", "Katakana", "ExtendNumLet"} /\ b = "ExtendNumLet"
         \/ A = "ExtendNumLet" /\ b \in AHLetter \cup {"Numeric", "Katakana"}
         \/ A = "Regional_Indicator" /\ b = "Regional_Indicator" /\ st.ri = 1
(* the machine that is started again at every word *)
StepFresh(st, c, N) == IF Break(st, c, N) THEN Begin(c) ELSE Step(st, c)
=============================================================================
