----------------------------- MODULE WordModel -----------------------------
(* The machines decide like the rules of UAX #29, at every position of every class string. *)
EXTENDS Word, TLC, Json, IOUtils
CONSTANTS MaxLen, Used
Tab == JsonDeserialize(IOEnv.CLASSES)
Cls == { Tab[i] : i \in IF Used = {} THEN DOMAIN Tab ELSE Used }
VARIABLES s
Init == \E c \in Cls, d \in Cls : s = <<c, d>>
Next == Len(s) < MaxLen /\ \E c \in Cls : s' = Append(s, c)
Ahead(i) == LET k == MinAbove({ j \in 1..Len(s) : s[j].w \notin Skipped }, i) IN IF k = 0 THEN "none" ELSE Look(s[k])
RECURSIVE Same(_, _, _)
Same(m, f, i) ==       \* m, f: the machines behind s[i]
  IF i = Len(s) THEN TRUE ELSE
  LET b == Boundary(s, i)
      N == Ahead(i + 1)
  IN Break(m, s[i + 1], N) = b /\ Break(f, s[i + 1], N) = b /\ Same(Step(m, s[i + 1]), StepFresh(f, s[i + 1], N), i + 1)
Rules == Same(Begin(s[1]), Begin(s[1]), 1)
=============================================================================
