--------------------------- MODULE GraphemeModel ---------------------------
(* The machine (continued over boundaries, and restarted at every cluster) decides like the rules of UAX #29. *)
EXTENDS Grapheme, TLC, Json, IOUtils
CONSTANTS MaxLen, Used
Tab == JsonDeserialize(IOEnv.CLASSES)
Cls == { Tab[i] : i \in IF Used = {} THEN DOMAIN Tab ELSE Used }
VARIABLES s, m, f
Init == \E c \in Cls, d \in Cls : s = <<c, d>> /\ m = Begin(c) /\ f = Begin(c)    \* m, f: before the last element
Next == /\ Len(s) < MaxLen
        /\ \E c \in Cls : s' = Append(s, c)
        /\ m' = Step(m, s[Len(s)])
        /\ f' = StepFresh(f, s[Len(s)])
Rules == LET b == Boundary(s, Len(s) - 1) IN Break(m, s[Len(s)]) = b /\ Break(f, s[Len(s)]) = b
(* clusters tile the text *)
Tile == LET RECURSIVE Sum(_)
            Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
            q == ClusterLens(s, 1)
        IN Sum(q) = Len(s) /\ \A i \in DOMAIN q : q[i] > 0
=============================================================================
