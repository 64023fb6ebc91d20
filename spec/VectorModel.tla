----------------------------- MODULE VectorModel -----------------------------
(***************************************************************************)
(* Conversions and scans handle blocks of w plain bytes at once, and the   *)
(* rest byte by byte.  For every text, limit and width the blocks change   *)
(* nothing: the scan finds the same end as byte by byte, and the           *)
(* conversion yields the same text.                                        *)
(* `stride`: how far a scan goes on behind a block of plain bytes; any     *)
(* stride up to the width will do.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
U == INSTANCE Utf
CONSTANTS Alphabet, MaxLen, Widths
VARIABLES t, w, stride, lim, pos, out, phase

Plain(b) == b \in 32..127
End == IF lim < Len(t) THEN lim ELSE Len(t)
Block == SubSeq(t, pos + 1, pos + w)

Init == t = <<>> /\ w \in Widths /\ stride \in 1..w /\ lim = 0 /\ pos = 0 /\ out = <<>> /\ phase = "text"
Grow == /\ phase = "text" /\ Len(t) < MaxLen /\ \E b \in Alphabet : t' = Append(t, b)
        /\ UNCHANGED << w, stride, lim, pos, out, phase >>
Begin == /\ phase = "text" /\ lim' \in 0..(Len(t) + 1) /\ phase' \in {"scan", "convert"}
         /\ UNCHANGED << t, w, stride, pos, out >>

(* scan: only while more than a block is left *)
ScanBlock ==
  /\ phase = "scan" /\ pos + w < End
  /\ LET S == { i \in 1..w : ~Plain(Block[i]) } IN
     IF S = {} THEN pos' = pos + stride /\ phase' = phase
     ELSE pos' = pos + (CHOOSE i \in S : \A j \in S : i <= j) - 1 /\ phase' = "rest"
  /\ UNCHANGED << t, w, stride, lim, out >>
ScanRest == /\ phase = "scan" /\ pos + w >= End /\ phase' = "rest" /\ UNCHANGED << t, w, stride, lim, pos, out >>
ScanByte == /\ phase = "rest" /\ pos < End /\ Plain(t[pos + 1]) /\ pos' = pos + 1
            /\ UNCHANGED << t, w, stride, lim, out, phase >>

(* conversion: whole blocks of ASCII, then the decoder *)
ConvertBlock ==
  /\ phase = "convert" /\ pos + w <= Len(t) /\ \A i \in 1..w : U!IsAscii(Block[i])
  /\ pos' = pos + w /\ out' = out \o Block /\ UNCHANGED << t, w, stride, lim, phase >>
ConvertRest ==
  /\ phase = "convert" /\ ~(pos + w <= Len(t) /\ \A i \in 1..w : U!IsAscii(Block[i]))
  /\ pos' = Len(t) /\ out' = out \o U!ConvDecode(SubSeq(t, pos + 1, Len(t))) /\ phase' = "converted"
  /\ UNCHANGED << t, w, stride, lim >>
Next == Grow \/ Begin \/ ScanBlock \/ ScanRest \/ ScanByte \/ ConvertBlock \/ ConvertRest

RECURSIVE PlainEnd(_)
PlainEnd(i) == IF i < End /\ Plain(t[i + 1]) THEN PlainEnd(i + 1) ELSE i
Scanned == phase \in {"scan", "rest"} => pos <= PlainEnd(0)
ScanDone == phase = "rest" /\ (pos = End \/ ~Plain(t[pos + 1])) => pos = PlainEnd(0)
InBounds == pos <= Len(t)
Converted == phase = "converted" => out = U!ConvDecode(t)
=============================================================================
