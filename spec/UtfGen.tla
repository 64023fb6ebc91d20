----------------------------- MODULE UtfGen -----------------------------
(* Writes the decoders as transition tables and the encoders as arithmetic rows; the harness only interprets them. *)
EXTENDS Utf, TLC, Json, IOUtils, FiniteSets
Ctls == << [need |-> 0, have |-> 0], [need |-> 2, have |-> 1], [need |-> 3, have |-> 1], [need |-> 3, have |-> 2],
           [need |-> 4, have |-> 1], [need |-> 4, have |-> 2], [need |-> 4, have |-> 3],
           [need |-> 5, have |-> 1], [need |-> 5, have |-> 2], [need |-> 5, have |-> 3], [need |-> 5, have |-> 4],
           [need |-> 6, have |-> 1], [need |-> 6, have |-> 2], [need |-> 6, have |-> 3], [need |-> 6, have |-> 4],
           [need |-> 6, have |-> 5] >>
IndexOf(s) == CHOOSE i \in DOMAIN Ctls : Ctls[i].need = s.need /\ (s.need = 0 \/ Ctls[i].have = s.have)
At(c, a) == [need |-> c.need, have |-> c.have, acc |-> a]
Value(r) == IF r.res >= 0 THEN r.res ELSE r.st.acc
(* value after the step = mul * acc + add, established by evaluating the step at two accumulators *)
Row(Step(_, _), c, b) ==
  LET r0 == Step(At(c, 0), b)
      r1 == Step(At(c, 1), b)
      r7 == Step(At(c, 1000), b)
      mul == Value(r1) - Value(r0)
      kind == IF r0.res >= 0 THEN 1 ELSE IF r0.res = Inc THEN 0 ELSE 2
  IN IF Assert(Value(r7) = Value(r0) + 1000 * mul /\ IndexOf(r0.st) = IndexOf(r7.st), "not linear") THEN
       << IndexOf(r0.st) - 1, kind, mul, Value(r0) >> ELSE <<>>
Tab(Step(_, _)) == [i \in DOMAIN Ctls |-> [b \in 1..256 |-> Row(Step, Ctls[i], b - 1)]]
(* UTF-16 decoder: classes of units; state 0 = boundary, 1 = behind a high surrogate (accumulator: its payload) *)
Classes16 == << <<0, 55295>>, <<55296, 56319>>, <<56320, 57343>>, <<57344, 65535>> >>
(* << next, kind, factor of the accumulator, factor of the unit, constant >> *)
None16 == << 0, 0, 0, 0, 0 >>
Dec16 == << << <<0, 1, 0, 1, 0>>, <<1, 0, 0, 1, -55296>>, None16, <<0, 1, 0, 1, 0>> >>,
            << None16, None16, <<0, 1, 1024, 1, 65536 - 56320>>, None16 >> >>
(* the table is the declarative Decode16 *)
RECURSIVE Run16(_, _, _)
Run16(u, s, a) ==
  IF u = <<>> THEN <<>> ELSE
  LET k == CHOOSE k \in 1..4 : u[1] \in Classes16[k][1]..Classes16[k][2]
      c == Dec16[s + 1][k]
      v == c[3] * a + c[4] * u[1] + c[5]
  IN (IF c[2] = 1 THEN <<v>> ELSE <<>>) \o Run16(Tail(u), c[1], IF c[1] = 0 THEN 0 ELSE v)
Reps16 == {0, 65, 55295, 55296, 55297, 56319, 56320, 57343, 57344, 65535}
ASSUME \A u \in UNION { [1..n -> Reps16] : n \in 0..4 } : Run16(u, 0, 0) = Decode16(u)
ASSUME JsonSerialize(IOEnv.OUT, [ classes16 |-> Classes16, dec16 |-> Dec16, stream |-> Tab(StreamStep), conv |-> Tab(ConvStep), iter |-> Tab(IterStep),
                                  rows8 |-> Utf8Rows, rows16 |-> Utf16Rows ])
=============================================================================
