------------------------------ MODULE Grapheme ------------------------------
(***************************************************************************)
(* Extended grapheme clusters (UAX #29 of Unicode 15.1).                   *)
(* A text is seen as a sequence of classes [g: Grapheme_Cluster_Break,     *)
(* ep: Extended_Pictographic, cj: Indic_Conjunct_Break].                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* ---- declarative: is there a boundary between s[i] and s[i+1]? --------- *)
Ctl == {"Control", "CR", "LF"}

(* \p{Extended_Pictographic} Extend* ZWJ x \p{Extended_Pictographic} *)
GB11(s, i) ==
  /\ s[i + 1].ep /\ s[i].g = "ZWJ"
  /\ \E j \in 1..(i - 1) : s[j].ep /\ \A k \in (j + 1)..(i - 1) : s[k].g = "Extend"

(* \p{InCB=Consonant} [Extend Linker]* Linker [Extend Linker]* x \p{InCB=Consonant} *)
GB9c(s, i) ==
  /\ s[i + 1].cj = "Consonant"
  /\ \E j \in 1..(i - 1) :
       /\ s[j].cj = "Consonant"
       /\ \A k \in (j + 1)..i : s[k].cj \in {"Extend", "Linker"}
       /\ \E k \in (j + 1)..i : s[k].cj = "Linker"

(* sot (RI RI)* RI x RI  and  [^RI] (RI RI)* RI x RI *)
RIBefore(s, i) == LET C == { j \in 0..i : j = 0 \/ s[j].g /= "Regional_Indicator" }
                  IN i - (CHOOSE j \in C : \A k \in C : k <= j)
GB12(s, i) == s[i].g = "Regional_Indicator" /\ s[i + 1].g = "Regional_Indicator" /\ RIBefore(s, i) % 2 = 1

Boundary(s, i) ==
  LET a == s[i].g
      b == s[i + 1].g
  IN IF a = "CR" /\ b = "LF" THEN FALSE                                    \* GB3
     ELSE IF a \in Ctl \/ b \in Ctl THEN TRUE                              \* GB4, GB5
     ELSE ~ \/ a = "L" /\ b \in {"L", "V", "LV", "LVT"}                    \* GB6
            \/ a \in {"LV", "V"} /\ b \in {"V", "T"}                       \* GB7
            \/ a \in {"LVT", "T"} /\ b = "T"                               \* GB8
            \/ b \in {"Extend", "ZWJ", "SpacingMark"}                      \* GB9, GB9a
            \/ a = "Prepend"                                               \* GB9b
            \/ GB9c(s, i) \/ GB11(s, i) \/ GB12(s, i)

(* positions (1-based index of the first element) of the clusters *)
Starts(s) == { i \in 1..Len(s) : i = 1 \/ Boundary(s, i - 1) }

(* ---- machine ------------------------------------------------------------ *)
Begin(c) == [a |-> c.g, ri |-> IF c.g = "Regional_Indicator" THEN 1 ELSE 0,
             cj |-> IF c.cj = "Consonant" THEN 1 ELSE 0, ep |-> IF c.ep THEN 1 ELSE 0]

Step(st, c) ==
  [a |-> c.g,
   ri |-> IF c.g = "Regional_Indicator" THEN 1 - st.ri ELSE 0,
   cj |-> IF c.cj = "Consonant" THEN 1
          ELSE IF c.cj = "Linker" /\ st.cj >= 1 THEN 2
          ELSE IF c.cj = "Extend" /\ st.cj >= 1 THEN st.cj ELSE 0,
   ep |-> IF c.ep THEN 1
          ELSE IF c.g = "Extend" /\ st.ep = 1 THEN 1
          ELSE IF c.g = "ZWJ" /\ st.ep = 1 THEN 2 ELSE 0]

Break(st, c) ==
  LET a == st.a
      b == c.g
  IN IF a = "CR" /\ b = "LF" THEN FALSE
     ELSE IF a \in Ctl \/ b \in Ctl THEN TRUE
     ELSE ~ \/ a = "L" /\ b \in {"L", "V", "LV", "LVT"}
            \/ a \in {"LV", "V"} /\ b \in {"V", "T"}
            \/ a \in {"LVT", "T"} /\ b = "T"
            \/ b \in {"Extend", "ZWJ", "SpacingMark"}
            \/ a = "Prepend"
            \/ c.cj = "Consonant" /\ st.cj = 2
            \/ c.ep /\ a = "ZWJ" /\ st.ep = 2
            \/ b = "Regional_Indicator" /\ st.ri = 1

(* the machine that is started again at every cluster *)
StepFresh(st, c) == IF Break(st, c) THEN Begin(c) ELSE Step(st, c)

(* lengths of the clusters of a class string, by the declarative rules *)
RECURSIVE ClusterLens(_, _)
ClusterLens(s, from) ==
  IF from > Len(s) THEN <<>> ELSE
  LET E == { i \in from..Len(s) : i = Len(s) \/ Boundary(s, i) }
      e == CHOOSE i \in E : \A j \in E : i <= j
  IN << e - from + 1 >> \o ClusterLens(s, e + 1)
=============================================================================
