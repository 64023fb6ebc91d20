----------------------------- MODULE WordTrace -----------------------------
EXTENDS Word, Lookup, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == JsonDeserialize(IOEnv.CLASSES)
Rows == JsonDeserialize(IOEnv.ROWS)
Cls(c) == T[At(Rows, c, Rows[1][3]) + 1]
VARIABLES tid, l
Init == tid = 0 /\ l \in 1..64
Next == tid = 0 /\ \E t \in DOMAIN Traces : t % 64 = l - 1 /\ tid' = t /\ UNCHANGED l
Conform ==
  tid = 0 \/
  LET t == Traces[tid] IN WordLens([i \in DOMAIN t.cps |-> Cls(t.cps[i])], 1) = t.lens
=============================================================================
