------------------------------ MODULE CaseData ------------------------------
(* The data of Case.tla from the Unicode Character Database (JSON file CASE; word classes as for Word.tla). *)
EXTENDS Integers, Sequences, Json, IOUtils
LOCAL INSTANCE Lookup
LOCAL INSTANCE Word
CD == JsonDeserialize(IOEnv.CASE)
LOCAL WT == JsonDeserialize(IOEnv.CLASSES)
LOCAL WRows == JsonDeserialize(IOEnv.ROWS)
None == [u |-> -1, l |-> -1, t |-> -1, su |-> <<>>, sl |-> <<>>, st |-> <<>>, fc |-> <<>>, fs |-> <<>>, ff |-> <<>>]
CaseRowOf(c) == LET i == At(CD.index, c, 0) IN IF i = 0 THEN None ELSE CD.maps[i]
GcOf(c) == At(CD.gc, c, "Cc")      \* beyond the code space the tables answer as for U+0000
WordClass(c) == WT[At(WRows, c, WRows[1][3]) + 1]
WbOf(c) == WordClass(c).w
WordLensOf(s) == WordLens([i \in DOMAIN s |-> WordClass(s[i])], 1)
=============================================================================
