----------------------------- MODULE WidthTrace -----------------------------
(* Recorded measurements. kind "push": widths after every push (reset: indices at which the measure was reset first);
   kind "text": total and base-only widths of a text; kind "u8": the same for UTF-8 bytes. *)
EXTENDS Width, Lookup, TLC, Json, IOUtils
G == INSTANCE Grapheme
Utf == INSTANCE Utf
Traces == ndJsonDeserialize(IOEnv.TRACES)
WC == JsonDeserialize(IOEnv.WCLASSES)
WRows == JsonDeserialize(IOEnv.WROWS)
GC == JsonDeserialize(IOEnv.CLASSES)
GRows == JsonDeserialize(IOEnv.ROWS)
W(c) == WC[At(WRows, c, WRows[1][3]) + 1]
Gr(c) == GC[At(GRows, c, GRows[1][3]) + 1]
RECURSIVE Widths(_, _, _, _)
Widths(st, t, i, acc) ==
  IF i > Len(t.cps) THEN acc ELSE
  LET a == Push(IF \E k \in DOMAIN t.resets : t.resets[k] = i THEN Start ELSE st, W(t.cps[i]))
  IN Widths(a, t, i + 1, Append(acc, Columns(a)))
RECURSIVE Total(_, _, _, _)
Total(cps, lens, at, base) ==
  IF lens = <<>> THEN 0 ELSE
  LET s == SubSeq(cps, at, at + Head(lens) - 1)
  IN (IF base THEN W(s[1]).w ELSE ClusterWidth([i \in DOMAIN s |-> W(s[i])])) + Total(cps, Tail(lens), at + Head(lens), base)
Sums(cps) == LET lens == G!ClusterLens([i \in DOMAIN cps |-> Gr(cps[i])], 1)
             IN << Total(cps, lens, 1, FALSE), Total(cps, lens, 1, TRUE) >>
VARIABLES tid, l
Init == tid = 0 /\ l \in 1..64
Next == tid = 0 /\ \E t \in DOMAIN Traces : t % 64 = l - 1 /\ tid' = t /\ UNCHANGED l
Conform ==
  tid = 0 \/
  LET t == Traces[tid] IN
  CASE t.kind = "push" -> Widths(Start, t, 1, <<>>) = t.widths
    [] t.kind = "text" -> Sums(t.cps) = << t.total, t.base >>
    [] t.kind = "u8" -> LET cps == Utf!ConvDecode(t.bytes) IN Sums(cps) = << t.total, t.base >>
=============================================================================
