---------------------------- MODULE UtfTrace ----------------------------
(* Validates recorded executions: `kind` says which decoder produced the trace.                         *)
(*   stream: ev = << <<byte, result>>, ... >> of one decoder state fed byte by byte                       *)
(*   conv32/conv16/iter/u16: a whole buffer `in` and its conversion `out`                                  *)
EXTENDS Utf, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st
Init == tid \in DOMAIN Traces /\ l = 1 /\ st = Boundary
Step(s, b) == IF Traces[tid].kind = "stream" THEN StreamStep(s, b) ELSE ConvStep(s, b)
Next == /\ Traces[tid].kind \in {"stream", "bytes"}
        /\ l <= Len(Traces[tid].ev)
        /\ st' = Step(st, Traces[tid].ev[l][1]).st
        /\ l' = l + 1
        /\ UNCHANGED tid
Conform ==
  LET t == Traces[tid] IN
  CASE t.kind \in {"stream", "bytes"} -> l <= Len(t.ev) => Step(st, t.ev[l][1]).res = t.ev[l][2]
    [] t.kind = "conv32" -> ConvDecode(t.in) = t.out
    [] t.kind = "conv16" -> Encode16All(ConvDecode(t.in)) = t.out
    [] t.kind = "iter"   -> IterDecode(t.in) = t.out
    [] t.kind = "u16to32" -> Decode16(t.in) = t.out
    [] t.kind = "u16to8" -> Encode8All(Decode16(t.in)) = t.out
    [] t.kind = "u32to8" -> Encode8All(t.in) = t.out
    [] t.kind = "u32to16" -> Encode16All(t.in) = t.out
=============================================================================
