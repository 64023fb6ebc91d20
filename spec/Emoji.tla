-------------------------------- MODULE Emoji --------------------------------
(***************************************************************************)
(* Emoji presentation runs (UTS #51 segmentation grammar): a text is a     *)
(* sequence of categories; tokens are matched greedily (the longest one).  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Cats == {"Invalid", "Emoji", "EmojiTextPresentation", "EmojiEmojiPresentation", "EmojiModifierBase", "EmojiModifier", "EmojiVSBase",
         "RegionalIndicator", "KeyCapBase", "CombiningEnclosingKeyCap", "CombiningEnclosingCircleBackslash", "ZWJ", "VS15", "VS16",
         "TagBase", "TagSequence", "TagTerm"}
AnyEmoji == {"Emoji", "EmojiTextPresentation", "EmojiEmojiPresentation", "EmojiModifierBase", "KeyCapBase", "TagBase"}
(* emoji shown as emoji when they stand alone *)
Alone == {"EmojiEmojiPresentation", "EmojiModifierBase", "TagBase"}

(* ---- the grammar ----------------------------------------------------------- *)
IsPresentation(s) == Len(s) = 2 /\ s[1] \in AnyEmoji /\ s[2] = "VS16"
IsModified(s) == s = << "EmojiModifierBase", "EmojiModifier" >>
IsFlag(s) == s = << "RegionalIndicator", "RegionalIndicator" >>
IsTag(s) == Len(s) >= 3 /\ s[1] = "TagBase" /\ s[Len(s)] = "TagTerm" /\ \A i \in 2..(Len(s) - 1) : s[i] = "TagSequence"
IsKeyCap(s) == s = << "KeyCapBase", "VS16", "CombiningEnclosingKeyCap" >>
IsBarred(s) == Len(s) = 2 /\ s[1] \in AnyEmoji /\ s[2] = "CombiningEnclosingCircleBackslash"
IsElement(s) == IsPresentation(s) \/ IsModified(s) \/ (Len(s) = 1 /\ s[1] \in AnyEmoji)
(* elements joined by ZWJ, at least two *)
IsZwj(s) ==
  LET J == { i \in DOMAIN s : s[i] = "ZWJ" }
      Starts == {1} \cup { i + 1 : i \in J }
      EndOf(a) == LET E == { i \in J : i >= a } IN IF E = {} THEN Len(s) ELSE (CHOOSE i \in E : \A j \in E : i <= j) - 1
  IN J # {} /\ \A a \in Starts : IsElement(SubSeq(s, a, EndOf(a)))
IsEmoji(s) == \/ Len(s) = 1 /\ s[1] \in Alone
              \/ IsPresentation(s) \/ IsModified(s) \/ IsFlag(s) \/ IsTag(s) \/ IsKeyCap(s) \/ IsZwj(s) \/ IsBarred(s)
IsTextual(s) == Len(s) = 2 /\ s[1] \in AnyEmoji /\ s[2] = "VS15"

(* length of the token at the front: the longest match, a single element if nothing matches *)
TokenLen(s) == LET M == {1} \cup { k \in DOMAIN s : IsEmoji(SubSeq(s, 1, k)) \/ IsTextual(SubSeq(s, 1, k)) }
               IN CHOOSE k \in M : \A j \in M : j <= k
Style(s) == IF IsEmoji(s) /\ ~IsTextual(s) THEN "Emoji" ELSE "Text"
(* runs as << length, style >> *)
AddRun(runs, n, st) == IF runs # <<>> /\ runs[Len(runs)][2] = st THEN [runs EXCEPT ![Len(runs)] = << @[1] + n, st >>]
                       ELSE Append(runs, << n, st >>)
RECURSIVE RunsFrom(_, _)
RunsFrom(s, runs) == IF s = <<>> THEN runs
                     ELSE LET k == TokenLen(s) IN RunsFrom(SubSeq(s, k + 1, Len(s)), AddRun(runs, k, Style(SubSeq(s, 1, k))))
Runs(s) == RunsFrom(s, <<>>)

(* ---- the scanner: an automaton of the grammar ------------------------------- *)
States == {"start", "symbol", "keycap", "alone", "base", "flag", "tagbase", "tags", "element", "capped", "joiner", "joined", "joinedbase", "end", "text", "dead"}
Accepts(q) == CASE q \in {"alone", "base", "tagbase", "element", "capped", "joined", "joinedbase", "end"} -> "Emoji"
                [] q \in {"symbol", "keycap", "flag", "text"} -> "Text"      \* flag: a lonely regional indicator
                [] OTHER -> "no"
Step(q, c) ==
  CASE q = "start" ->
       (CASE c \in {"Emoji", "EmojiTextPresentation"} -> "symbol"
          [] c = "KeyCapBase" -> "keycap"
          [] c = "EmojiEmojiPresentation" -> "alone"
          [] c = "EmojiModifierBase" -> "base"
          [] c = "TagBase" -> "tagbase"
          [] c = "RegionalIndicator" -> "flag"
          [] OTHER -> "text")
    [] q \in {"symbol", "keycap", "alone", "base", "tagbase"} ->
       (CASE c = "VS16" -> (IF q = "keycap" THEN "capped" ELSE "element")
          [] c = "VS15" -> "text"
          [] c = "CombiningEnclosingCircleBackslash" -> "end"
          [] c = "ZWJ" -> "joiner"
          [] c = "EmojiModifier" /\ q = "base" -> "element"
          [] c = "TagSequence" /\ q = "tagbase" -> "tags"
          [] OTHER -> "dead")
    [] q = "flag" -> (IF c = "RegionalIndicator" THEN "end" ELSE "dead")
    [] q = "tags" -> (IF c = "TagSequence" THEN "tags" ELSE IF c = "TagTerm" THEN "end" ELSE "dead")
    [] q = "capped" -> (IF c = "CombiningEnclosingKeyCap" THEN "end" ELSE IF c = "ZWJ" THEN "joiner" ELSE "dead")
    [] q = "element" -> (IF c = "ZWJ" THEN "joiner" ELSE "dead")
    [] q = "joiner" -> (IF c = "EmojiModifierBase" THEN "joinedbase" ELSE IF c \in AnyEmoji THEN "joined" ELSE "dead")
    [] q \in {"joined", "joinedbase"} ->
       (CASE c = "VS16" -> "element"
          [] c = "ZWJ" -> "joiner"
          [] c = "EmojiModifier" /\ q = "joinedbase" -> "element"
          [] OTHER -> "dead")
    [] OTHER -> "dead"
=============================================================================
