----------------------------- MODULE NamesModel -----------------------------
(* The algorithmic names are unique and never collide with explicit ones. *)
EXTENDS Names, TLC, Json, IOUtils, FiniteSets
D == JsonDeserialize(IOEnv.NAMES)
Syllables == { SyllableName(c, D.jamo) : c \in SBase..SLast }
Explicit == UNION { { D.runs[i].names[j] : j \in DOMAIN D.runs[i].names } : i \in DOMAIN D.runs }
Count == LET RECURSIVE Sum(_)
             Sum(i) == IF i = 0 THEN 0 ELSE Len(D.runs[i].names) + Sum(i - 1)
         IN Sum(Len(D.runs))
ASSUME Cardinality(Syllables) = 11172
ASSUME Cardinality(Explicit) = Count
ASSUME Syllables \cap Explicit = {}
ASSUME \A i \in DOMAIN D.ranges : \A j \in DOMAIN D.runs :
         D.runs[j].lo + Len(D.runs[j].names) <= D.ranges[i].lo \/ D.runs[j].lo > D.ranges[i].hi
=============================================================================
