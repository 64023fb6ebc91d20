----------------------------- MODULE NamesTrace -----------------------------
(* Recorded names of all code points, texts of all enumerators, results of make_age. *)
EXTENDS Names, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
D == JsonDeserialize(IOEnv.NAMES)     \* [runs, ranges, jamo, ages, known]
Runs == D.runs
Ranges == D.ranges
Jamo == D.jamo
Ages == D.ages
(* A recorded defect (see known_findings.txt): within these ranges the library answers with the pattern "PREFIX-*". *)
Known == D.known
IsKnown(cp, name) == \E i \in DOMAIN Known : cp \in Known[i].lo..Known[i].hi /\ name = Known[i].text
Right(cp, name) == name = Name(cp, Runs, Ranges, Jamo) \/ IsKnown(cp, name)
OK(t) ==
  CASE t.kind = "names" -> \A i \in DOMAIN t.names : Right(t.lo + i - 1, t.names[i])
    [] t.kind = "none" -> \A cp \in t.lo..(t.lo + 255) : Name(cp, Runs, Ranges, Jamo) = ""
    [] t.kind = "big" -> \A i \in DOMAIN t.names : t.names[i] = Name(0, Runs, Ranges, Jamo)   \* the fallback entry
    [] t.kind = "enum" -> Printed(t)
    [] t.kind = "unnamed" -> PrintedNumber(t)
    [] t.kind = "age" -> t.age = AgeOf(t.text, Ages)
    [] t.kind = "ageorder" -> AgesAscend(t.order, Ages)
VARIABLES tid, l
Init == tid = 0 /\ l \in 1..64
Next == tid = 0 /\ \E t \in DOMAIN Traces : t % 64 = l - 1 /\ tid' = t /\ UNCHANGED l
Conform == tid = 0 \/ OK(Traces[tid])
=============================================================================
