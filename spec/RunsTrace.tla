------------------------------ MODULE RunsTrace ------------------------------
(* Recorded combined runs: << start, end, properties >>. kind "runs": script and emoji; "bits": components which
   break where a bit field of the code points changes. *)
EXTENDS Refine, Json, IOUtils, TLC, Lookup
S == INSTANCE Script
E == INSTANCE Emoji
U == INSTANCE Ucd
Traces == ndJsonDeserialize(IOEnv.TRACES)
SRaw == JsonDeserialize(IOEnv.SCLASSES)
SRows == JsonDeserialize(IOEnv.SROWS)
ERaw == JsonDeserialize(IOEnv.ECLASSES)
ERows == JsonDeserialize(IOEnv.EROWS)
ListOf(c) == LET r == SRaw[At(SRows, c, 0) + 1] IN S!List(r.sc, r.scx)
Cat(c) == U!Category(ERaw[At(ERows, c, 0) + 1])
RECURSIVE EndsOf(_, _)
EndsOf(runs, at) == IF runs = <<>> THEN <<>> ELSE << << at + Head(runs)[1], Head(runs)[2] >> >> \o EndsOf(Tail(runs), at + Head(runs)[1])
Text(cps) == << S!Runs([i \in DOMAIN cps |-> ListOf(cps[i])]), EndsOf(E!Runs([i \in DOMAIN cps |-> Cat(cps[i])]), 0) >>
RECURSIVE Bits(_, _, _, _)
Bits(cps, div, i, acc) ==
  IF i > Len(cps) THEN acc ELSE
  LET v == (cps[i] \div div) % 2 IN
  Bits(cps, div, i + 1, IF acc # <<>> /\ acc[Len(acc)][2] = v THEN [acc EXCEPT ![Len(acc)] = << i, v >>] ELSE Append(acc, << i, v >>))
Pow == << 1, 2, 4, 8, 16, 32 >>
VARIABLES tid, l
Init == tid = 0 /\ l \in 1..64
Next == tid = 0 /\ tid' \in { t \in DOMAIN Traces : t % 64 = l - 1 } /\ l' = l
Conform == tid = 0 \/ LET t == Traces[tid] IN
  t.ranges = Refinement(IF t.k = "runs" THEN Text(t.cps) ELSE [b \in 1..t.n |-> Bits(t.cps, Pow[b], 1, <<>>)])
=============================================================================
