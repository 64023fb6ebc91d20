------------------------------ MODULE CaseTrace ------------------------------
(* Recorded case mappings of the real code. *)
EXTENDS Case, CaseData, TLC
U == INSTANCE Utf
Traces == ndJsonDeserialize(IOEnv.TRACES)
Point(t) ==
  LET c == t.c IN
  /\ \A op \in Ops : /\ t.simple[op] = Simple(c, op)
                     /\ t.full[op] = (IF FullMap(c, op) = << c >> THEN <<>> ELSE FullMap(c, op))
                     /\ t.changes[op] = Changes(c, op)
  /\ t.cased = Cased(c) /\ t.ignorable = Ignorable(c)
Range(t) == \A c \in t.lo..t.hi : /\ \A op \in Ops : ~Changes(c, op)
                                  /\ t.cased = Cased(c) /\ t.ignorable = Ignorable(c)
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Text(t) == /\ \A op \in Ops : t.out[op] = Convert(t.in, op)
           /\ t.cmp = Compare(t.in, t.other) /\ t.eq = (Compare(t.in, t.other) = 0)
Bytes(t) == LET s == U!ConvDecode(t.in)
                o == U!ConvDecode(t.other)
            IN /\ \A op \in Ops : t.out[op] = U!Encode8All(Convert(s, op))
               /\ t.cmp = Compare(s, o) /\ t.eq = (Compare(s, o) = 0)
Ok(t) == CASE t.k = "point" -> Point(t) [] t.k = "range" -> Range(t) [] t.k = "text" -> Text(t) [] t.k = "bytes" -> Bytes(t)
VARIABLES tid, l
Init == tid = 0 /\ l \in 1..64
Next == tid = 0 /\ tid' \in { t \in DOMAIN Traces : t % 64 = l - 1 } /\ l' = l
Conform == tid = 0 \/ Ok(Traces[tid])
=============================================================================
