----------------------------- MODULE EmojiTrace -----------------------------
(* Recorded emoji runs: texts of code points with the << end, style >> of every run. *)
EXTENDS Emoji, Lookup, Json, IOUtils, TLC
U == INSTANCE Ucd
Traces == ndJsonDeserialize(IOEnv.TRACES)
Raw == JsonDeserialize(IOEnv.CLASSES)
Rows == JsonDeserialize(IOEnv.ROWS)
Cat(c) == U!Category(Raw[At(Rows, c, Rows[1][3]) + 1])
Lens(ends) == [i \in DOMAIN ends |-> << ends[i][1] - (IF i = 1 THEN 0 ELSE ends[i - 1][1]), ends[i][2] >>]
VARIABLES tid, l
Init == tid = 0 /\ l \in 1..64
Next == tid = 0 /\ tid' \in { t \in DOMAIN Traces : t % 64 = l - 1 } /\ l' = l
Conform == tid = 0 \/ LET t == Traces[tid] IN Lens(t.runs) = Runs([i \in DOMAIN t.cps |-> Cat(t.cps[i])])
=============================================================================
