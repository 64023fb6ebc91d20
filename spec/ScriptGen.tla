------------------------------ MODULE ScriptGen ------------------------------
(* The script list of every class of code points, for the harness. *)
EXTENDS Script, Json, IOUtils, TLC
Raw == JsonDeserialize(IOEnv.CLASSES)      \* [sc, scx]
ASSUME \A i \in DOMAIN Raw : /\ Cardinality(Range(Raw[i].scx)) = Len(Raw[i].scx)
                             /\ Raw[i].scx # <<>> => Range(Raw[i].scx) \cap Shared = {}
ASSUME JsonSerialize(IOEnv.OUT, [lists |-> [i \in DOMAIN Raw |-> List(Raw[i].sc, Raw[i].scx)]])
=============================================================================
