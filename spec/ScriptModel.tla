----------------------------- MODULE ScriptModel -----------------------------
(* The run machine reads a text of script lists over a few scripts; it must find the declarative runs. *)
EXTENDS Script, TLC
CONSTANTS Names, MaxLen, MaxList
Lists == { << s >> : s \in Shared } \cup
         UNION { { s \in [1..n -> Names] : \A i, j \in 1..n : s[i] = s[j] => i = j } : n \in 1..MaxList }
VARIABLES text, cur, runs
Init == text = <<>> /\ cur = Free /\ runs = <<>>
Read == Len(text) < MaxLen /\ \E l \in Lists :
          /\ text' = Append(text, l)
          /\ LET m == Merge(cur, l) IN
             IF m = <<>> THEN cur' = l /\ runs' = Append(runs, << Len(text), cur[1] >>) ELSE cur' = m /\ UNCHANGED runs
Next == Read
All == IF text = <<>> THEN runs ELSE Append(runs, << Len(text), cur[1] >>)
Begin(i) == IF i = 1 THEN 1 ELSE All[i - 1][1] + 1
Machine == All = Runs(text)
Maximal == [i \in DOMAIN All |-> All[i][1]] = EndsFrom(text, 1)
Tiles == \A i \in DOMAIN All : Begin(i) <= All[i][1]
Permits == \A i \in DOMAIN All :
   LET C == Constraints(text, Begin(i), All[i][1])
       P == Permitted(text, Begin(i), All[i][1])
   IN IF C = {} THEN All[i][2] \in Shared
      ELSE /\ All[i][2] \in P
           \* the first constraining character has its way if it can
           /\ LET f == text[CHOOSE k \in C : \A j \in C : k <= j][1] IN f \in P => All[i][2] = f
(* what may still be said is exactly what all characters of the run permit *)
Exact == LET b == Begin(Len(runs) + 1) IN Constraints(text, b, Len(text)) # {} => Range(cur) = Permitted(text, b, Len(text))
=============================================================================
