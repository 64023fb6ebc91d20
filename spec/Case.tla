-------------------------------- MODULE Case --------------------------------
(***************************************************************************)
(* Case conversion (Unicode Standard 3.13, default algorithms without      *)
(* conditional mappings).  The data are parameters.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS CaseRow(_),    \* record of the raw mappings of a code point, or NoRow
          Gc(_), Wb(_),  \* general category (short name), word break class
          WordLengths(_) \* lengths of the words of a text

Ops == {"upper", "lower", "title", "fold"}
(* Raw fields: u, l, t: simple mappings of UnicodeData.txt (-1: empty); su, sl, st: unconditional SpecialCasing.txt;
   fc, fs, ff: CaseFolding.txt by status (<<>>: none). *)
NoRow == [u |-> -1, l |-> -1, t |-> -1, su |-> <<>>, sl |-> <<>>, st |-> <<>>, fc |-> <<>>, fs |-> <<>>, ff |-> <<>>]
Or(x, c) == IF x = -1 THEN c ELSE x
Simple(c, op) ==
  LET r == CaseRow(c) IN
  CASE op = "upper" -> Or(r.u, c)
    [] op = "lower" -> Or(r.l, c)
    [] op = "title" -> Or(r.t, Or(r.u, c))
    [] op = "fold" -> IF r.fc # <<>> THEN r.fc[1] ELSE IF r.fs # <<>> THEN r.fs[1] ELSE c
FullMap(c, op) ==
  LET r == CaseRow(c)
      s == CASE op = "upper" -> r.su [] op = "lower" -> r.sl [] op = "title" -> r.st [] op = "fold" -> r.ff
  IN IF s # <<>> THEN s ELSE << Simple(c, op) >>
Cased(c) == Gc(c) \in {"Lu", "Ll", "Lt"}
Ignorable(c) == Gc(c) \in {"Mn", "Me", "Cf", "Lm", "Sk"} \/ Wb(c) \in {"MidLetter", "MidNumLet", "Single_Quote"}
Changes(c, op) == Simple(c, op) # c \/ FullMap(c, op) # << c >>

(* ---- texts ---------------------------------------------------------------- *)
RECURSIVE Map(_, _)
Map(s, op) == IF s = <<>> THEN <<>> ELSE FullMap(Head(s), op) \o Map(Tail(s), op)
(* title case of one word: declarative ... *)
TitleAt(w, i) == IF ~Cased(w[i]) THEN << w[i] >>
                 ELSE IF \E j \in 1..(i - 1) : Cased(w[j]) THEN FullMap(w[i], "lower") ELSE FullMap(w[i], "title")
RECURSIVE TitleFrom(_, _)
TitleFrom(w, i) == IF i > Len(w) THEN <<>> ELSE TitleAt(w, i) \o TitleFrom(w, i + 1)
(* ... and of a text *)
RECURSIVE TitleWords(_, _)
TitleWords(s, lens) == IF lens = <<>> THEN <<>>
                       ELSE TitleFrom(SubSeq(s, 1, Head(lens)), 1) \o TitleWords(SubSeq(s, Head(lens) + 1, Len(s)), Tail(lens))
Title(s) == TitleWords(s, WordLengths(s))
Convert(s, op) == IF op = "title" THEN Title(s) ELSE Map(s, op)

(* the machine: a flag tells whether the word has begun; it may be interrupted anywhere *)
TitleStep(begun, newWord, c) ==
  LET b == begun /\ ~newWord IN
  [begun |-> b \/ Cased(c), out |-> IF ~Cased(c) THEN << c >> ELSE IF b THEN FullMap(c, "lower") ELSE FullMap(c, "title")]

(* ---- caseless comparison ---------------------------------------------------- *)
RECURSIVE LexOrder(_, _)
LexOrder(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
               ELSE IF b = <<>> THEN 1
               ELSE IF Head(a) < Head(b) THEN -1
               ELSE IF Head(a) > Head(b) THEN 1
               ELSE LexOrder(Tail(a), Tail(b))
Compare(a, b) == LexOrder(Map(a, "fold"), Map(b, "fold"))
=============================================================================
