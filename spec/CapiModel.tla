------------------------------ MODULE CapiModel ------------------------------
(* Several converters fed in any interleaving; conversions of all short texts into all short destinations. *)
EXTENDS Capi, TLC
CONSTANTS Handles, Bytes, MaxFed, Alphabet, MaxSrc
Untouched == -7
VARIABLES conv, cell, fed, done, src, room
vars == << conv, cell, fed, done, src, room >>
Init ==
  /\ conv = [h \in Handles |-> Dead]
  /\ cell = [h \in Handles |-> Untouched]
  /\ fed = [h \in Handles |-> <<>>]
  /\ done = [h \in Handles |-> 0]
  /\ src = <<>> /\ room = 0
Create(h) == /\ conv[h] = Dead /\ fed[h] = <<>>
             /\ conv' = [conv EXCEPT ![h] = Boundary]
             /\ UNCHANGED << cell, fed, done, src, room >>
Run(h, b) == /\ conv[h] /= Dead /\ Len(fed[h]) < MaxFed
             /\ LET r == Feed(conv[h], b, cell[h]) IN
                /\ conv' = [conv EXCEPT ![h] = r.st]
                /\ cell' = [cell EXCEPT ![h] = r.cell]
                /\ done' = [done EXCEPT ![h] = @ + r.ret]
             /\ fed' = [fed EXCEPT ![h] = Append(@, b)]
             /\ UNCHANGED << src, room >>
(* destroyed and created again: nothing is left of the former life *)
Destroy(h) == /\ conv[h] /= Dead /\ fed[h] /= <<>>
              /\ conv' = [conv EXCEPT ![h] = Dead]
              /\ cell' = [cell EXCEPT ![h] = Untouched]
              /\ done' = [done EXCEPT ![h] = 0]
              /\ fed' = [fed EXCEPT ![h] = <<>>]
              /\ UNCHANGED << src, room >>
Grow == /\ \A h \in Handles : conv[h] = Dead /\ fed[h] = <<>>
        /\ \/ Len(src) < MaxSrc /\ \E c \in Alphabet : src' = Append(src, c) /\ room' = 0
           \/ room < 4 * MaxSrc + 1 /\ room' = room + 1 /\ UNCHANGED src
        /\ UNCHANGED << conv, cell, fed, done >>
Next == \/ src = <<>> /\ room = 0 /\ \E h \in Handles : Create(h) \/ Destroy(h) \/ \E b \in Bytes : Run(h, b)
        \/ Grow
Independent == \A h \in Handles : conv[h] /= Dead =>
  LET d == ConvDecode(fed[h]) IN done[h] = Len(d) /\ cell[h] = IF d = <<>> THEN Untouched ELSE d[Len(d)]
Exact == LET r == Loop(src, room, <<>>) IN
  /\ r.ret = Result(src, room) /\ r.bytes = Stored(src, room) /\ Len(r.bytes) <= room
  /\ (r.ret >= 0 <=> Len(Encode8All(src)) <= room)
Bits == \A w \in { [spare |-> s, code |-> 5] : s \in {0, 1, 2, 1023, 1024, 1365, 2047} } : \A i \in 0..10 :
  /\ BitOf(BitOn(w, i), i) = 1 /\ BitOf(BitOff(w, i), i) = 0
  /\ \A k \in (0..10) \ {i} : BitOf(BitOn(w, i), k) = BitOf(w, k) /\ BitOf(BitOff(w, i), k) = BitOf(w, k)
  /\ BitOff(BitOn(w, i), i) = BitOff(w, i)
ASSUME Bits
=============================================================================
