--------------------------- MODULE GraphemeTrace ---------------------------
(* Recorded segmentations: `cps` the text (or `bytes`, UTF-8), `lens` the cluster lengths reported.
   kind = "u32": every interface over code points; "u8": utf8_grapheme_segmenter with the clusters' code points. *)
EXTENDS Grapheme, Lookup, TLC, Json, IOUtils
Utf == INSTANCE Utf
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == JsonDeserialize(IOEnv.CLASSES)
Rows == JsonDeserialize(IOEnv.ROWS)
(* beyond the code space the tables answer as for U+0000 *)
Cls(c) == T[At(Rows, c, Rows[1][3]) + 1]
VARIABLES tid, l
Init == tid = 0 /\ l \in 1..64
Next == tid = 0 /\ \E t \in DOMAIN Traces : t % 64 = l - 1 /\ tid' = t /\ UNCHANGED l
Conform ==
  tid = 0 \/
  LET t == Traces[tid] IN
  LET cps == IF t.kind = "u8" THEN Utf!StreamText(t.bytes) ELSE t.cps
      s == [i \in DOMAIN cps |-> Cls(cps[i])]
  IN ClusterLens(s, 1) = t.lens /\ (t.kind = "u8" => t.cps = cps)
=============================================================================
