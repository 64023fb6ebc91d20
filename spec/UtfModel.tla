---------------------------- MODULE UtfModel ----------------------------
(* The streaming decoder as a transition system over arbitrary bytes, checked against its declarative description. *)
EXTENDS Utf, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES hist, st, res

Init == hist = <<>> /\ st = Boundary /\ res = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E b \in Alphabet :
             LET r == StreamStep(st, b) IN
             /\ hist' = Append(hist, b)
             /\ st' = r.st
             /\ res' = Append(res, r.res)
Spec == Init /\ [][Next]_<<hist, st, res>>

TypeOK == st.need \in {0, 2, 3, 4} /\ st.have < (IF st.need = 0 THEN 1 ELSE st.need)
Declarative == hist /= <<>> => res[Len(hist)] = Expected(hist, Len(hist))
(* a boundary byte that cannot start a character is invalid and leaves the decoder at a boundary *)
InvalidStart == \A i \in DOMAIN hist : (hist[i] \in (128..191) \cup (248..255) /\ LastLead(hist, i) = 0) => res[i] = Inv
(* after any text at most three more bytes lead to a boundary, provided they are no lead bytes *)
Resync == \A x, y, z \in {0, 128, 255} :
            \E k \in 0..3 : AfterStream(st, SubSeq(<<x, y, z>>, 1, k)).need = 0
(* nothing before the last lead byte matters *)
LeadForgets == \A b \in Alphabet : IsLead(b) => StreamStep(st, b).st = StreamStep(Boundary, b).st
(* a text is well formed iff it is the encoding of scalar values; on such texts all decoders agree *)
Values == SelectSeq(res, LAMBDA r : r /= Inc)
WellFormed == (\A i \in DOMAIN Values : IsScalar(Values[i])) /\ Encode8All(Values) = hist
Agree == WellFormed =>
            /\ st.need = 0
            /\ ConvDecode(hist) = Values
            /\ IterDecode(hist) = Values
            /\ Decode16(Encode16All(Values)) = Values
=============================================================================
