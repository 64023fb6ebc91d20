------------------------------ MODULE ToolsTrace ------------------------------
(* Recorded runs of unicode-query: args, stdout, stderr (bytes), status. *)
EXTENDS Tools, Lookup, Json, IOUtils, TLC
S == INSTANCE Script
E == INSTANCE Emoji
Db == INSTANCE Ucd
G == INSTANCE Grapheme
R == INSTANCE Refine
N == INSTANCE Names
Traces == ndJsonDeserialize(IOEnv.TRACES)
SRaw == JsonDeserialize(IOEnv.SCLASSES)
SRows == JsonDeserialize(IOEnv.SROWS)
URaw == JsonDeserialize(IOEnv.UCLASSES)
URows == JsonDeserialize(IOEnv.UROWS)
GRaw == JsonDeserialize(IOEnv.GCLASSES)
GRows == JsonDeserialize(IOEnv.GROWS)
D == JsonDeserialize(IOEnv.NAMES)
Runs == D.runs
Ranges == D.ranges
Jamo == D.jamo
Ages == D.ages
W == JsonDeserialize(IOEnv.WORDS)    \* bytes of the words: [word |-> bytes]
Usage == JsonDeserialize(IOEnv.USAGE)

ListOf(c) == LET r == SRaw[At(SRows, c, 0) + 1] IN S!List(r.sc, r.scx)
Cls(c) == URaw[At(URows, c, 0) + 1]
Gr(c) == GRaw[At(GRows, c, 0) + 1]
Plain(cps) == \A i \in DOMAIN cps : IsScalar(cps[i])

RECURSIVE Clusters(_, _, _)
Clusters(cps, lens, strict) ==
  IF lens = <<>> THEN <<>>
  ELSE Shown(Encode8All(SubSeq(cps, 1, lens[1])), strict) \o << 10 >> \o Clusters(SubSeq(cps, lens[1] + 1, Len(cps)), Tail(lens), strict)
ClusterLines(bytes, strict) == LET cps == StreamText(bytes) IN Clusters(cps, G!ClusterLens([i \in DOMAIN cps |-> Gr(cps[i])], 1), strict)

RECURSIVE EndsOf(_, _)
EndsOf(runs, at) == IF runs = <<>> THEN <<>> ELSE << << at + Head(runs)[1], Head(runs)[2] >> >> \o EndsOf(Tail(runs), at + Head(runs)[1])
Segs(cps) == << S!Runs([i \in DOMAIN cps |-> ListOf(cps[i])]),
                EndsOf(E!Runs([i \in DOMAIN cps |-> Db!Category(Cls(cps[i]))]), 0) >>
Green == << 27, 91, 51, 50, 109 >>
Normal == << 27, 91, 109 >>
RunLines(bytes, strict, tty) ==
  LET cps == ConvDecode(bytes)
      Line(r) == Dec(r[1]) \o << 45 >> \o Dec(r[2] - 1) \o << 32, 40 >> \o Dec(r[2] - r[1]) \o << 41, 58, 32 >>
                 \o W[r[3][1]] \o << 32 >> \o W[r[3][2]] \o << 10, 34 >> \o (IF tty THEN Green ELSE <<>>)
                 \o Shown(Encode8All(SubSeq(cps, r[1] + 1, r[2])), strict) \o (IF tty THEN Normal ELSE <<>>) \o << 34, 10, 10 >>
      rs == R!Refinement(Segs(cps))
  IN IF cps = <<>> THEN <<>> ELSE Flat([i \in DOMAIN rs |-> Line(rs[i])])

AgeText(a) == IF a = "Unassigned" THEN W["Unassigned"] ELSE LET k == CHOOSE i \in DOMAIN Ages : Ages[i].ident = a IN W[Ages[k].text]
Field(label, value) == W[label] \o << 58, 32 >> \o value \o << 10 >>
Properties(cp, name) ==
  LET c == Cls(cp)
      r == Db!Record(c)
      q == Db!Query(c)
  IN Field("Name                        ", name)
  \o Field("Unicode Version             ", AgeText(r.age))
  \o Field("Codepoint                   ", << 85, 43 >> \o HexNum(cp))
  \o Field("UTF-8                       ", << 34 >> \o Shown(Encode8(cp), TRUE) \o << 34 >>)
  \o (IF r.general_category = "Control" THEN <<>> ELSE Field("Display                     ", Encode8(cp)))
  \o Field("Plane                       ", W[q.plane])
  \o Field("Block                       ", W[q.block])
  \o Field("Script                      ", W[q.script])
  \o Field("General Category            ", W[r.general_category])
  \o Field("East Asian Width            ", W[r.east_asian_width])
  \o Field("Character width             ", Dec(r.char_width))
  \o Field("Emoji Segmentation Category ", W[r.emoji_segmentation_category])
  \o Field("Emoji Presentation          ", W[IF r.emoji_presentation THEN "emoji" ELSE "text"])
  \o Field("Grapheme Cluster Break      ", W[r.grapheme_cluster_break])
  \o << 10 >>
NameOf(cp, names) == (* the bytes of the name come along, the name itself is compared as text *)
  LET k == CHOOSE i \in DOMAIN names : names[i].cp = cp IN names[k].bytes
NamesRight(names) == \A i \in DOMAIN names : names[i].name = N!Name(names[i].cp, Runs, Ranges, Jamo)
Listing(a, names) == LET cps == CodePoints(a) IN Flat([i \in DOMAIN cps |-> Properties(cps[i], NameOf(cps[i], names))])
Failed(a) == IF CodePoints(a) = <<>> THEN W["Failed to parse codepoint "] \o a \o << 10 >> ELSE <<>>

Result(out, err, status) == [out |-> out, err |-> err, status |-> status]
Wanted(t) ==
  LET a == t.args
      rest == Tail(a)
      o == Options(rest, FALSE)
      texts == o.texts
  IN IF a = <<>> THEN Result(Usage, <<>>, 1)
     ELSE IF a[1] = W["help"] THEN Result(Usage, <<>>, 0)
     ELSE IF a[1] = W["gc"] THEN
            IF o.ok THEN Result(Flat([i \in DOMAIN texts |-> ClusterLines(texts[i], o.esc)]), <<>>, 0) ELSE Result(Usage, <<>>, 1)
     ELSE IF a[1] = W["runs"] THEN
            IF o.ok THEN Result(Flat([i \in DOMAIN texts |-> RunLines(texts[i], o.esc, t.tty = 1)]), <<>>, 0) ELSE Result(Usage, <<>>, 1)
     ELSE LET q == IF a[1] = W["properties"] THEN rest ELSE a IN
          Result(Flat([i \in DOMAIN q |-> Listing(q[i], t.names)]), Flat([i \in DOMAIN q |-> Failed(q[i])]), 0)

VARIABLES tid, l
Init == tid = 0 /\ l \in 1..64
Next == tid = 0 /\ tid' \in { t \in DOMAIN Traces : t % 64 = l - 1 } /\ l' = l
(* texts which decode to something that is no character are outside the property *)
InScope(t) == \A i \in DOMAIN t.args : Plain(StreamText(t.args[i])) /\ Plain(ConvDecode(t.args[i])) /\ Plain(CodePoints(t.args[i]))
Conform == tid = 0 \/ LET t == Traces[tid] IN
  InScope(t) => NamesRight(t.names) /\ [out |-> t.out, err |-> t.err, status |-> t.status] = Wanted(t)
=============================================================================
