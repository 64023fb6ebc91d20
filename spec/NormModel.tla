------------------------------ MODULE NormModel ------------------------------
(***************************************************************************)
(* Normalization as rewriting: any decomposable code point may be          *)
(* decomposed and any reorderable pair exchanged, in any order; and a text *)
(* may be fed to the streaming normalizer one code point after the other.  *)
(***************************************************************************)
EXTENDS Norm, NormData, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES orig,     \* the text
          text,     \* the text being rewritten
          k,        \* with compatibility mappings
          phase

Init == orig = <<>> /\ text = <<>> /\ k \in BOOLEAN /\ phase = "text"
Grow == phase = "text" /\ Len(orig) < MaxLen /\ \E c \in Alphabet : orig' = Append(orig, c) /\ text' = orig' /\ UNCHANGED << k, phase >>
Begin == phase = "text" /\ phase' = "rewrite" /\ UNCHANGED << orig, text, k >>
Replace(i, s) == SubSeq(text, 1, i - 1) \o s \o SubSeq(text, i + 1, Len(text))
Decompose(i) == Level(text[i], k) # << text[i] >> /\ text' = Replace(i, Level(text[i], k))
Exchange(i) == i < Len(text) /\ Reorderable(text[i], text[i + 1])
               /\ text' = [text EXCEPT ![i] = text[i + 1], ![i + 1] = text[i]]
Rewrite == phase = "rewrite" /\ (\E i \in DOMAIN text : Decompose(i) \/ Exchange(i)) /\ UNCHANGED << orig, k, phase >>
Next == Grow \/ Begin \/ Rewrite

(* every order of rewriting leads to the decomposed form *)
Irreducible == \A i \in DOMAIN text : Level(text[i], k) = << text[i] >> /\ (i < Len(text) => ~Reorderable(text[i], text[i + 1]))
Confluent == phase = "rewrite" /\ Irreducible => text = Decomposed(orig, k)
Equivalent == phase = "rewrite" => \A f \in Forms : (k => Compat(f)) => Normal(text, f) = Normal(orig, f)

T == phase = "text" /\ k
Idempotent == T => \A f \in Forms : Normal(Normal(orig, f), f) = Normal(orig, f)
Related == T => /\ Normal(Normal(orig, "NFC"), "NFD") = Normal(orig, "NFD")
                /\ Normal(Normal(orig, "NFD"), "NFC") = Normal(orig, "NFC")
                /\ Normal(Normal(orig, "NFC"), "NFKD") = Normal(orig, "NFKD")
                /\ Normal(Normal(orig, "NFKC"), "NFKD") = Normal(orig, "NFKD")
                /\ Normal(Normal(orig, "NFKD"), "NFC") = Normal(orig, "NFKC")
(* nothing composable is left *)
Tight == T => LET s == Normal(orig, "NFC") IN
              \A i \in DOMAIN s : LET l == LastStarter(SubSeq(s, 1, i - 1)) IN
                l # 0 => Blocked(SubSeq(s, 1, i - 1), l, s[i]) \/ Pair(s[l], s[i]) = 0
QuickSound == T => \A f \in Forms : LET q == Quick(orig, f) IN
                /\ q = "Yes" => Normal(orig, f) = orig
                /\ q = "No" => Normal(orig, f) # orig
                /\ q = "Maybe" => Composed(f)
Normalised == T => \A f \in Forms : Quick(Normal(orig, f), f) # "No"

(* ---- streaming: segments ------------------------------------------------- *)
RECURSIVE Stream(_, _, _)
Stream(s, f, pending) ==
  IF s = <<>> THEN Normal(pending, f)
  ELSE IF pending # <<>> /\ Safe(Head(s), f) THEN Normal(pending, f) \o Stream(Tail(s), f, << Head(s) >>)
  ELSE Stream(Tail(s), f, Append(pending, Head(s)))
Streaming == T => \A f \in Forms : Stream(orig, f, <<>>) = Normal(orig, f)
(* a boundary once safe is safe whatever stands in front *)
SafeCut == T => \A i \in DOMAIN orig, f \in Forms :
              Safe(orig[i], f) => Normal(SubSeq(orig, 1, i - 1), f) \o Normal(SubSeq(orig, i, Len(orig)), f) = Normal(orig, f)
=============================================================================
