-------------------------------- MODULE Tools --------------------------------
(***************************************************************************)
(* unicode-query: what it prints for its arguments.  Arguments and output  *)
(* are sequences of bytes; words of the output are given as bytes, too.    *)
(***************************************************************************)
EXTENDS Utf

(* ---- command line ------------------------------------------------------- *)
DashE == << 45, 101 >>
DashDash == << 45, 45 >>
IsOption(a) == a # <<>> /\ a[1] = 45
(* declarative: options up to the first "--" or other argument; anything else that begins with "-" is refused *)
Front(args) == LET S == { i \in 0..Len(args) : \A k \in 1..i : args[k] = DashE } IN CHOOSE i \in S : \A j \in S : j <= i
Refused(args) == LET n == Front(args) IN n < Len(args) /\ IsOption(args[n + 1]) /\ args[n + 1] # DashDash
Escaping(args) == Front(args) > 0
Texts(args) == LET n == Front(args) IN
               IF n < Len(args) /\ args[n + 1] = DashDash THEN SubSeq(args, n + 2, Len(args)) ELSE SubSeq(args, n + 1, Len(args))
(* the loop over the arguments *)
RECURSIVE Options(_, _)
Options(args, esc) ==
  IF args = <<>> THEN [ok |-> TRUE, esc |-> esc, texts |-> <<>>]
  ELSE IF Head(args) = DashE THEN Options(Tail(args), TRUE)
  ELSE IF Head(args) = DashDash THEN [ok |-> TRUE, esc |-> esc, texts |-> Tail(args)]
  ELSE IF IsOption(Head(args)) THEN [ok |-> FALSE, esc |-> esc, texts |-> <<>>]
  ELSE [ok |-> TRUE, esc |-> esc, texts |-> args]

(* ---- escapes --------------------------------------------------------------- *)
HexByte(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Escape(b) == << 92, 120, HexByte(b \div 16), HexByte(b % 16) >>
(* control codes only *)
Control(b) == IF b < 32 THEN Escape(b) ELSE << b >>
(* everything but printable ASCII, and the quote *)
Strict(b) == IF b \in 32..126 /\ b # 34 THEN << b >> ELSE Escape(b)
Shown(bytes, strict) == Flat([i \in DOMAIN bytes |-> IF strict THEN Strict(bytes[i]) ELSE Control(bytes[i])])

(* ---- numbers ---------------------------------------------------------------- *)
RECURSIVE Dec(_), HexNum(_)
Dec(n) == IF n < 10 THEN << 48 + n >> ELSE Dec(n \div 10) \o << 48 + (n % 10) >>
HexNum(n) == IF n < 16 THEN << HexByte(n) >> ELSE HexNum(n \div 16) \o << HexByte(n % 16) >>
HexValue(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 97..102 THEN b - 87 ELSE IF b \in 65..70 THEN b - 55 ELSE -1
(* hexadecimal number of at most six digits behind leading zeros, -1 for anything else (the code space needs no more) *)
RECURSIVE ParseHex(_, _)
ParseHex(s, acc) == IF s = <<>> THEN acc
                    ELSE IF HexValue(s[1]) < 0 \/ acc > MaxScalar THEN -1
                    ELSE ParseHex(Tail(s), acc * 16 + HexValue(s[1]))
(* code points an argument of `properties` stands for: U+XXXX, or a text; <<>>: refused *)
Named(a) == Len(a) >= 3 /\ a[1] = 85 /\ a[2] = 43
CodePoints(a) == IF Named(a) THEN (LET v == ParseHex(SubSeq(a, 3, Len(a)), 0) IN IF v < 0 THEN <<>> ELSE << v >>)
                 ELSE IterDecode(a)
=============================================================================
