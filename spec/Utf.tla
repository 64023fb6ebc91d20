------------------------------- MODULE Utf -------------------------------
(***************************************************************************)
(* UTF-8 / UTF-16 encoding forms and the decoders of libunicode.           *)
(* Bytes, code units and code points are integers, texts are sequences.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

MaxScalar == 1114111
IsSurrogate(c) == c \in 55296..57343
IsScalar(c) == c \in 0..MaxScalar /\ ~IsSurrogate(c)

Byte == 0..255

(* ---- the encoding forms (Unicode Standard, tables 3-5 and 3-6) -------- *)
(* One row per length: the code points lo..hi are encoded by units         *)
(* add + (c \div div) % mod.                                               *)
U(d, m, a) == [div |-> d, mod |-> m, add |-> a]

Utf8Rows ==
  << [lo |-> 0,     hi |-> 127,      units |-> << U(1, 128, 0) >>],
     [lo |-> 128,   hi |-> 2047,     units |-> << U(64, 32, 192), U(1, 64, 128) >>],
     [lo |-> 2048,  hi |-> 65535,    units |-> << U(4096, 16, 224), U(64, 64, 128), U(1, 64, 128) >>],
     [lo |-> 65536, hi |-> MaxScalar,
      units |-> << U(262144, 8, 240), U(4096, 64, 128), U(64, 64, 128), U(1, 64, 128) >>] >>

Utf16Rows ==
  << [lo |-> 0,     hi |-> 55295, units |-> << U(1, 65536, 0) >>],
     [lo |-> 57344, hi |-> 65535, units |-> << U(1, 65536, 0) >>],
     [lo |-> 65536, hi |-> MaxScalar,
      \* 16#D7C0 + (c >> 10), 16#DC00 + (c & 16#3FF)
      units |-> << U(1024, 2048, 55232), U(1, 1024, 56320) >>] >>

EncodeBy(rows, c) ==
  LET hit == { i \in DOMAIN rows : rows[i].lo <= c /\ c <= rows[i].hi } IN
  IF hit = {} THEN <<>>
  ELSE LET r == rows[CHOOSE i \in hit : TRUE].units IN
       [i \in DOMAIN r |-> r[i].add + ((c \div r[i].div) % r[i].mod)]

Encode8(c) == EncodeBy(Utf8Rows, c)
Encode16(c) == EncodeBy(Utf16Rows, c)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Encode8All(s) == Flat([i \in DOMAIN s |-> Encode8(s[i])])
Encode16All(s) == Flat([i \in DOMAIN s |-> Encode16(s[i])])

(* ---- byte classification --------------------------------------------- *)
IsAscii(b) == b < 128
IsCont(b) == b \in 128..191
IsLead(b) == b \in 192..247
LeadLength(b) == IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4
LeadPayload(b) == IF b < 224 THEN b - 192 ELSE IF b < 240 THEN b - 224 ELSE b - 240

(* ---- decoder states: need = 0 at a character boundary ----------------- *)
Boundary == [need |-> 0, have |-> 0, acc |-> 0]
Controls == { [need |-> 0, have |-> 0] } \cup { [need |-> n, have |-> h] : n \in 2..4, h \in 1..3 }
Ctl == { c \in Controls : c.need = 0 \/ c.have < c.need }

Inc == -1   \* incomplete
Inv == -2   \* invalid

(* ---- (1) the streaming decoder from_utf8(state, byte) ------------------ *)
Start(b) == [need |-> LeadLength(b), have |-> 1, acc |-> LeadPayload(b)]

(* NB: masking with 63 -- inside a sequence every byte that is not a lead byte counts as continuation. *)
Push(s, b) ==
  LET a == s.acc * 64 + (b % 64) IN
  IF s.have + 1 = s.need THEN [st |-> Boundary, res |-> a]
  ELSE [st |-> [need |-> s.need, have |-> s.have + 1, acc |-> a], res |-> Inc]

StreamStep(s, b) ==
  IF s.need = 0 THEN
    IF IsAscii(b) THEN [st |-> Boundary, res |-> b]
    ELSE IF IsLead(b) THEN [st |-> Start(b), res |-> Inc]
    ELSE [st |-> Boundary, res |-> Inv]
  ELSE IF IsLead(b) THEN [st |-> Start(b), res |-> Inv]
  ELSE Push(s, b)

(* ---- (2) the byte-stream converter decoder<char>(byte), bulk conversions and the C stream ------ *)
(* Lead bytes inside a sequence are continuations like any other byte; what cannot start is skipped. *)
ConvStep(s, b) ==
  IF s.need = 0 THEN
    IF IsAscii(b) THEN [st |-> Boundary, res |-> b]
    ELSE IF IsLead(b) THEN [st |-> Start(b), res |-> Inc]
    ELSE [st |-> Boundary, res |-> Inc]
  ELSE Push(s, b)

(* ---- (3) the iterator based decoder: strict continuations, a byte that breaks a sequence is dropped -- *)
IterLength(b) == IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE IF b < 248 THEN 4 ELSE IF b < 252 THEN 5 ELSE 6
IterPayload(b) == IF b < 224 THEN b - 192 ELSE IF b < 240 THEN b - 224 ELSE IF b < 248 THEN b - 240
                  ELSE IF b < 252 THEN b - 248 ELSE b - 252
IterStep(s, b) ==
  IF s.need = 0 THEN
    IF IsAscii(b) THEN [st |-> Boundary, res |-> b]
    ELSE IF b \in 192..253 THEN [st |-> [need |-> IterLength(b), have |-> 1, acc |-> IterPayload(b)], res |-> Inc]
    ELSE [st |-> Boundary, res |-> Inc]
  ELSE IF IsCont(b) THEN Push(s, b)
  ELSE [st |-> Boundary, res |-> Inc]

(* ---- whole texts -------------------------------------------------------- *)
RECURSIVE RunStream(_, _)
RunStream(s, bytes) ==
  IF bytes = <<>> THEN <<>>
  ELSE LET r == StreamStep(s, Head(bytes)) IN << r.res >> \o RunStream(r.st, Tail(bytes))

RECURSIVE AfterStream(_, _)
AfterStream(s, bytes) == IF bytes = <<>> THEN s ELSE AfterStream(StreamStep(s, Head(bytes)).st, Tail(bytes))

RECURSIVE RunConv(_, _)
RunConv(s, bytes) ==
  IF bytes = <<>> THEN <<>>
  ELSE LET r == ConvStep(s, Head(bytes)) IN
       (IF r.res >= 0 THEN << r.res >> ELSE <<>>) \o RunConv(r.st, Tail(bytes))

RECURSIVE RunIter(_, _)
RunIter(s, bytes) ==
  IF bytes = <<>> THEN <<>>
  ELSE LET r == IterStep(s, Head(bytes)) IN
       (IF r.res >= 0 THEN << r.res >> ELSE <<>>) \o RunIter(r.st, Tail(bytes))

ConvDecode(bytes) == RunConv(Boundary, bytes)
IterDecode(bytes) == RunIter(Boundary, bytes)

(* The text the streaming decoder reports, malformed pieces (also an unfinished last one) as U+FFFD. *)
StreamText(bytes) ==
  LET rs == RunStream(Boundary, bytes)
      vs == SelectSeq(rs, LAMBDA r : r /= Inc)
      body == [i \in DOMAIN vs |-> IF vs[i] = Inv THEN 65533 ELSE vs[i]]
  IN IF AfterStream(Boundary, bytes).need = 0 THEN body ELSE body \o << 65533 >>

(* UTF-16: unpaired surrogates are skipped; a high surrogate takes the unit behind it along.  *)
IsHigh(u) == u \in 55296..56319
IsLow(u) == u \in 56320..57343
RECURSIVE Decode16(_)
Decode16(u) ==
  IF u = <<>> THEN <<>>
  ELSE IF IsHigh(u[1]) THEN
    IF Len(u) = 1 THEN <<>>
    ELSE IF IsLow(u[2]) THEN << (u[1] - 55296) * 1024 + (u[2] - 56320) + 65536 >> \o Decode16(SubSeq(u, 3, Len(u)))
    ELSE Decode16(SubSeq(u, 3, Len(u)))
  ELSE IF IsLow(u[1]) THEN Decode16(Tail(u))
  ELSE << u[1] >> \o Decode16(Tail(u))

(* ---- declarative view of the streaming decoder (property C02) ----------- *)
LastLead(bytes, i) == LET L == { j \in 1..i : IsLead(bytes[j]) } IN IF L = {} THEN 0 ELSE CHOOSE j \in L : \A k \in L : k <= j
RECURSIVE ValueOf(_, _, _, _)
ValueOf(bytes, j, k, a) == IF k > j + LeadLength(bytes[j]) - 1 THEN a
                           ELSE ValueOf(bytes, j, k + 1, a * 64 + (bytes[k] % 64))
Expected(bytes, i) ==
  LET b == bytes[i]
      j == LastLead(bytes, i)
      p == LastLead(bytes, i - 1)
      open == p /= 0 /\ i - p < LeadLength(bytes[p])      \* the sequence begun at p is unfinished before i
  IN IF j = i THEN (IF open THEN Inv ELSE Inc)
     ELSE IF j = 0 \/ i - j + 1 > LeadLength(bytes[j]) THEN (IF IsAscii(b) THEN b ELSE Inv)
     ELSE IF i - j + 1 < LeadLength(bytes[j]) THEN Inc
     ELSE ValueOf(bytes, j, j + 1, LeadPayload(bytes[j]))
=============================================================================
