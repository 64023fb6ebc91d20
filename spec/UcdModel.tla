------------------------------ MODULE UcdModel ------------------------------
(* Every class of the database is consistent; the cells cover the code space without gap or overlap. *)
EXTENDS Ucd, TLC, Json, IOUtils
Cls == JsonDeserialize(IOEnv.CLASSES)
Rows == JsonDeserialize(IOEnv.ROWS)
ASSUME Rows[1][1] = 0 /\ Rows[Len(Rows)][2] = 1114111
ASSUME \A i \in 2..Len(Rows) : Rows[i][1] = Rows[i - 1][2] + 1 /\ Rows[i][1] <= Rows[i][2]
VARIABLES k
Init == k = 0
Next == k = 0 /\ k' \in DOMAIN Cls
Inv == k = 0 \/ Consistent(Cls[k])
=============================================================================
