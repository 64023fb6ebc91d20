------------------------------ MODULE UcdTrace ------------------------------
(* The whole function computed by the real code, recorded as maximal ranges <<lo, hi, value>>, against the database.
   kind: "width", "record", "query"; `big` marks values beyond the code space (their numbers are text). *)
EXTENDS Ucd, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Cls == JsonDeserialize(IOEnv.CLASSES)
Rows == JsonDeserialize(IOEnv.ROWS)          \* sorted cells <<lo, hi, class>>, covering the code space
Records == [i \in DOMAIN Cls |-> Record(Cls[i])]
Queries == [i \in DOMAIN Cls |-> Query(Cls[i])]
RECURSIVE Idx(_, _, _)
Idx(c, lo, hi) == IF lo = hi THEN lo ELSE LET mid == (lo + hi + 1) \div 2 IN
                  IF Rows[mid][1] <= c THEN Idx(c, mid, hi) ELSE Idx(c, lo, mid - 1)
ClassesOf(t) == { Rows[i][3] + 1 : i \in Idx(t.lo, 1, Len(Rows))..Idx(t.hi, 1, Len(Rows)) }
Origin == Rows[1][3] + 1                     \* class of U+0000, the table's fallback entry
OK(t) ==
  CASE t.kind = "width" ->
         \A k \in (IF t.big THEN {Origin} ELSE ClassesOf(t)) : t.w = Records[k].char_width /\ t.rw = Records[k].char_width
    [] t.kind = "record" -> \A k \in (IF t.big THEN {Origin} ELSE ClassesOf(t)) : t.v = Records[k]
    [] t.kind = "query" -> IF t.big THEN t.v = Query(Nothing) ELSE \A k \in ClassesOf(t) : t.v = Queries[k]
VARIABLES tid, l
Init == tid = 0 /\ l \in 1..64
Next == tid = 0 /\ \E t \in DOMAIN Traces : t % 64 = l - 1 /\ tid' = t /\ UNCHANGED l
Conform == tid = 0 \/ OK(Traces[tid])
=============================================================================
