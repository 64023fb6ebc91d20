------------------------------ MODULE NormData ------------------------------
(* The data of Norm.tla from the Unicode Character Database (raw fields in the JSON file NORM). *)
EXTENDS Integers, Sequences, Json, IOUtils, FiniteSets
LOCAL INSTANCE Lookup
D == JsonDeserialize(IOEnv.NORM)
CccOf(c) == At(D.ccc, c, 0)
MapIndex(c) == At(D.dm, c, 0)
DmOf(c) == LET i == MapIndex(c) IN IF i = 0 THEN <<>> ELSE D.maps[i].m
CanonOf(c) == LET i == MapIndex(c) IN i # 0 /\ D.maps[i].t = "canonical"
TypeOf(c) == LET i == MapIndex(c) IN IF i = 0 THEN "none" ELSE D.maps[i].t
Listed == { D.excl[i] : i \in DOMAIN D.excl }           \* CompositionExclusions.txt
Canonical == { i \in DOMAIN D.maps : D.maps[i].t = "canonical" }
(* full composition exclusion: listed, singletons, non-starter decompositions *)
Excluded == { D.maps[i].c : i \in { j \in Canonical : \/ D.maps[j].c \in Listed
                                                       \/ Len(D.maps[j].m) = 1
                                                       \/ CccOf(D.maps[j].c) # 0
                                                       \/ CccOf(D.maps[j].m[1]) # 0 } }
CompIndex == { i \in Canonical : D.maps[i].c \notin Excluded }
Pairs == [ p \in { D.maps[i].m : i \in CompIndex } |-> D.maps[CHOOSE i \in CompIndex : D.maps[i].m = p].c ]
Seconds == { D.maps[i].m[2] : i \in CompIndex }
PrimaryOf(a, b) == IF << a, b >> \in DOMAIN Pairs THEN Pairs[<< a, b >>] ELSE 0
SecondOf(c) == c \in Seconds
=============================================================================
