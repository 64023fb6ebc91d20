------------------------------ MODULE CapiTrace ------------------------------
(* Recorded behaviour of the C interface.
   "stream"  a history of calls on several converters: ops of <<handle, byte, ret, cell before, cell after>>, byte -1
             create, -2 destroy (ret: 1 if the handle was set to NULL)
   "convert" one conversion: src, room, ret, bytes (those stored), beyond (1 if anything behind the destination changed)
   "rooms"   code points lo..hi convert into destinations of 0..5 bytes with results rets
   "valid"   code points lo..hi are valid or not
   "bits"    spare bits of a word
   "count"   clusters of a text, "pair": two code points of one cluster, "widths" in both modes *)
EXTENDS Capi, Lookup, TLC, Json, IOUtils
G == INSTANCE Grapheme
W == INSTANCE Width
Traces == ndJsonDeserialize(IOEnv.TRACES)
WC == JsonDeserialize(IOEnv.WCLASSES)
WRows == JsonDeserialize(IOEnv.WROWS)
GC == JsonDeserialize(IOEnv.CLASSES)
GRows == JsonDeserialize(IOEnv.ROWS)
WCls(c) == WC[At(WRows, c, WRows[1][3]) + 1]
Gr(c) == GC[At(GRows, c, GRows[1][3]) + 1]

RECURSIVE Follows(_, _)
Follows(conv, ops) ==
  IF ops = <<>> THEN TRUE ELSE
  LET o == Head(ops)
      h == o[1]
  IN CASE o[2] = -1 -> conv[h] = Dead /\ Follows([conv EXCEPT ![h] = Boundary], Tail(ops))
       [] o[2] = -2 -> conv[h] /= Dead /\ o[3] = 1 /\ Follows([conv EXCEPT ![h] = Dead], Tail(ops))
       [] OTHER -> LET r == Feed(conv[h], o[2], o[4]) IN
                   r.ret = o[3] /\ r.cell = o[5] /\ Follows([conv EXCEPT ![h] = r.st], Tail(ops))

RECURSIVE Sum(_, _, _, _)
Sum(cps, lens, at, base) ==
  IF lens = <<>> THEN 0 ELSE
  LET s == SubSeq(cps, at, at + Head(lens) - 1)
  IN (IF base THEN WCls(s[1]).w ELSE W!ClusterWidth([i \in DOMAIN s |-> WCls(s[i])])) + Sum(cps, Tail(lens), at + Head(lens), base)
Text(t) == IF t.u8 = 1 THEN ConvDecode(t.text) ELSE t.text
Lens(cps) == G!ClusterLens([i \in DOMAIN cps |-> Gr(cps[i])], 1)

VARIABLES tid, l
Init == tid = 0 /\ l \in 1..64
Next == tid = 0 /\ \E t \in DOMAIN Traces : t % 64 = l - 1 /\ tid' = t /\ UNCHANGED l
Conform ==
  tid = 0 \/
  LET t == Traces[tid] IN
  CASE t.kind = "stream" -> Follows([h \in 1..t.handles |-> Dead], t.ops)
    [] t.kind = "convert" -> t.beyond = 0 /\ t.ret = Result(t.src, t.room) /\ t.bytes = Stored(t.src, t.room)
    [] t.kind = "rooms" -> \* no encoding form changes its length inside the range
         /\ \A r \in DOMAIN Utf8Rows : t.lo > Utf8Rows[r].hi \/ t.hi < Utf8Rows[r].lo \/ (t.lo >= Utf8Rows[r].lo /\ t.hi <= Utf8Rows[r].hi)
         /\ \A n \in 0..5 : t.rets[n + 1] = Result(<< t.lo >>, n)
    [] t.kind = "valid" -> /\ (t.lo < 55296 => t.hi < 55296) /\ (t.lo \in 55296..57343 => t.hi <= 57343)
                           /\ (t.lo <= MaxScalar => t.hi <= MaxScalar)
                           /\ t.valid = IF IsScalar(t.lo) THEN 1 ELSE 0
    [] t.kind = "bits" -> LET w == [spare |-> t.spare, code |-> t.code] IN
         /\ t.capacity = 11 /\ t.mask = t.spare /\ t.cleared = << 0, t.code >>
         /\ \A i \in 0..10 : /\ t.get[i + 1] = BitOf(w, i)
                             /\ t.on[i + 1] = << BitOn(w, i).spare, t.code >>
                             /\ t.off[i + 1] = << BitOff(w, i).spare, t.code >>
    [] t.kind = "count" -> t.count = Len(Lens(Text(t)))
    [] t.kind = "pair" -> t.same = IF G!Boundary(<< Gr(t.a), Gr(t.b) >>, 1) THEN 0 ELSE 1
    [] t.kind = "widths" -> LET cps == Text(t) IN
         t.whole = Sum(cps, Lens(cps), 1, FALSE) /\ t.base = Sum(cps, Lens(cps), 1, TRUE)
=============================================================================
