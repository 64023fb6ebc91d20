------------------------------- MODULE NormGen -------------------------------
(* Tables of the normal forms for the harness; the derived quick-check properties and exclusions must be those of
   DerivedNormalizationProps.txt. *)
EXTENDS Norm, NormData, SequencesExt, TLC
Mapped == [i \in DOMAIN D.maps |-> D.maps[i].c]
Raw(k) == { D.raw[k][i] : i \in DOMAIN D.raw[k] }
InRaw(k, c) == \E r \in Raw(k) : r[1] <= c /\ c <= r[2]
Interesting == { Mapped[i] : i \in DOMAIN Mapped } \cup Seconds \cup (4352..4607) \cup { 44032, 44033, 44060, 55203 }
Props ==
  /\ \A c \in Interesting :
       /\ (c \in Excluded) = InRaw("excl", c)
       /\ \A f \in Forms : LET q == Qc(c, f) IN
            /\ (q = "No") = InRaw(f \o "_no", c)
            /\ (q = "Maybe") = (Composed(f) /\ InRaw(f \o "_maybe", c))
  /\ \A k \in DOMAIN D.raw : \A r \in Raw(k) : \/ \A c \in r[1]..r[2] : c \in Interesting
                                                \/ (r[1] >= 44032 /\ r[2] <= 55203)      \* all syllables alike
ASSUME Props
(* NormalizationTest.txt: rows of source, NFC, NFD, NFKC, NFKD *)
Tests == JsonDeserialize(IOEnv.NTEST)
ASSUME \A i \in DOMAIN Tests :
         LET t == Tests[i] IN
         \A j \in 1..5 : /\ Normal(t[j], "NFC") = (IF j <= 3 THEN t[2] ELSE t[4])
                         /\ Normal(t[j], "NFD") = (IF j <= 3 THEN t[3] ELSE t[5])
                         /\ Normal(t[j], "NFKC") = t[4]
                         /\ Normal(t[j], "NFKD") = t[5]
ASSUME JsonSerialize(IOEnv.OUT,
  [ canon |-> [i \in DOMAIN Mapped |-> Full(Mapped[i], FALSE)],
    compat |-> [i \in DOMAIN Mapped |-> Full(Mapped[i], TRUE)],
    pairs |-> SetToSeq({ << p[1], p[2], Pairs[p] >> : p \in DOMAIN Pairs }),
    maybe |-> SetToSeq({ c \in Interesting : MayCompose(Head(Full(c, FALSE))) }) ])
=============================================================================
