------------------------------ MODULE CaseModel ------------------------------
(* Laws of case conversion, for every mapped code point and for all short texts; the title-casing machine. *)
EXTENDS Case, CaseData, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES text, out, begun, one
Cs == { CD.maps[i].c : i \in DOMAIN CD.maps }
(* the machine reads a text it does not know the end of: a word boundary is known only together with what follows,
   so the text is chosen first *)
VARIABLE pos
vars == << text, out, begun, one, pos >>
Init == text = <<>> /\ out = <<>> /\ begun = FALSE /\ pos = 0 /\ one \in -64..0
Grow == one = 0 /\ pos = 0 /\ Len(text) < MaxLen /\ \E c \in Alphabet : text' = Append(text, c) /\ UNCHANGED << out, begun, one, pos >>
Starts(s) == LET W == WordLengths(s)
                 RECURSIVE Sum(_)
                 Sum(k) == IF k = 0 THEN 1 ELSE Sum(k - 1) + W[k]
             IN { Sum(k) : k \in 0..(Len(W) - 1) }
Read == one = 0 /\ pos < Len(text) /\
        LET r == TitleStep(begun, pos + 1 \in Starts(text), text[pos + 1]) IN
        out' = out \o r.out /\ begun' = r.begun /\ pos' = pos + 1 /\ UNCHANGED << text, one >>
Pick == one < 0 /\ one' \in { c \in Cs : c % 64 = -1 - one } /\ one' # 0 /\ UNCHANGED << text, out, begun, pos >>
Next == Grow \/ Read \/ Pick

Machine == pos > 0 /\ pos = Len(text) => out = Title(text)
Kept(s, op) == Convert(Convert(s, op), op) = Convert(s, op)
Idempotent == pos = 0 /\ one = 0 => \A op \in Ops : Kept(text, op)
SameFold == pos = 0 /\ one = 0 => \A op \in Ops : Compare(Convert(text, op), text) = 0 \/ 305 \in { text[i] : i \in DOMAIN text }
(* caseless comparison is an order *)
Total == pos = 0 /\ one = 0 => \A k \in 0..Len(text) :
           LET a == SubSeq(text, 1, k)
               b == SubSeq(text, k + 1, Len(text))
           IN /\ Compare(a, b) = 0 - Compare(b, a)
              /\ (Compare(a, b) = 0) = (Map(a, "fold") = Map(b, "fold"))
              /\ (k = 0 \/ Compare(a, text) # 1)
(* every mapped code point *)
Points == one > 0 =>
  /\ \A op \in Ops : Kept(<< one >>, op) /\ Len(FullMap(one, op)) \in 1..3
  /\ \A op \in Ops : Simple(Simple(one, op), op) = Simple(one, op)
  /\ Simple(Simple(one, "fold"), "fold") = Simple(one, "fold")
  /\ Map(FullMap(one, "upper"), "fold") = FullMap(one, "fold") \/ one \in {305}
=============================================================================
