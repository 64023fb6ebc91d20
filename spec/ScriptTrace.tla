----------------------------- MODULE ScriptTrace -----------------------------
(* Recorded script runs: texts of code points with << end, script >> of every run. *)
EXTENDS Script, Lookup, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
Raw == JsonDeserialize(IOEnv.CLASSES)
Rows == JsonDeserialize(IOEnv.ROWS)
Beyond == << "Unknown" >>
ListOf(c) == IF c > 1114111 THEN Beyond ELSE LET r == Raw[At(Rows, c, 0) + 1] IN List(r.sc, r.scx)
VARIABLES tid, l
Init == tid = 0 /\ l \in 1..64
Next == tid = 0 /\ tid' \in { t \in DOMAIN Traces : t % 64 = l - 1 } /\ l' = l
Conform == tid = 0 \/ LET t == Traces[tid] IN t.runs = Runs([i \in DOMAIN t.cps |-> ListOf(t.cps[i])])
=============================================================================
