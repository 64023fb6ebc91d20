---------------------------- MODULE UtfScalars ----------------------------
(* Round trip of every scalar value, as one state per block of 4096 code points. *)
EXTENDS Utf
VARIABLE blk
Init == blk \in -34..-1   \* (two levels, so that the blocks are spread over the workers)
Next == blk < 0 /\ blk' \in ((-1 - blk) * 8)..((-1 - blk) * 8 + 7)
RoundTrip == blk >= 0 => \A c \in (blk * 4096)..(blk * 4096 + 4095) :
   IsScalar(c) =>
     LET e == Encode8(c)
         rs == RunStream(Boundary, e)
     IN /\ \A i \in 1..(Len(e) - 1) : rs[i] = Inc
        /\ rs[Len(e)] = c
        /\ ConvDecode(e) = <<c>> /\ IterDecode(e) = <<c>>
        /\ Decode16(Encode16(c)) = <<c>>
        /\ Len(e) >= Len(Encode16(c))
Surrogates == blk >= 0 => \A c \in (blk * 4096)..(blk * 4096 + 4095) :
   /\ (IsSurrogate(c) => Encode16(c) = <<>>)
   /\ (IsScalar(c) /\ c < 65536 => Encode16(c) = <<c>>)
   /\ (c >= 65536 /\ c <= MaxScalar => Len(Encode16(c)) = 2 /\ IsHigh(Encode16(c)[1]) /\ IsLow(Encode16(c)[2]))
=============================================================================
