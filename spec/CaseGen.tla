------------------------------- MODULE CaseGen -------------------------------
(* Mapping tables for the harness; the specification's predicates are tested against DerivedCoreProperties.txt. *)
EXTENDS Case, CaseData, Norm, NormData, SequencesExt, TLC
Cs == { CD.maps[i].c : i \in DOMAIN CD.maps }
Derived(p) == { CD.derived[p][i] : i \in DOMAIN CD.derived[p] }
In(p, c) == \E r \in Derived(p) : r[1] <= c /\ c <= r[2]
Nfd(c) == Decomposed(<< c >>, FALSE)
DerivedOk(c) ==
  /\ In("CWU", c) = (Map(Nfd(c), "upper") # Nfd(c))
  /\ In("CWL", c) = (Map(Nfd(c), "lower") # Nfd(c))
  /\ In("CWCF", c) = (Map(Nfd(c), "fold") # Nfd(c))
ASSUME \A c \in Cs : DerivedOk(c)
(* what the derived predicates are built from, at the edges of every range *)
Edges == UNION { UNION { { r[1], r[2], r[1] - 1, r[2] + 1 } : r \in Derived(p) } : p \in {"Cased", "CI"} } \cap (0..1114111)
ASSUME \A c \in Edges : /\ In("CI", c) = Ignorable(c)
                        /\ (Cased(c) => In("Cased", c))
Out(c) == << c, Simple(c, "upper"), Simple(c, "lower"), Simple(c, "title"), Simple(c, "fold") >>
          \o << Len(FullMap(c, "upper")) >> \o FullMap(c, "upper") \o << Len(FullMap(c, "lower")) >> \o FullMap(c, "lower")
          \o << Len(FullMap(c, "title")) >> \o FullMap(c, "title") \o << Len(FullMap(c, "fold")) >> \o FullMap(c, "fold")
ASSUME JsonSerialize(IOEnv.OUT, [ maps |-> SetToSeq({ Out(c) : c \in Cs }),
         cased |-> SelectSeq(CD.gc, LAMBDA r : r[3] \in {"Lu", "Ll", "Lt"}) ])
=============================================================================
