------------------------------ MODULE EmojiGen ------------------------------
(* The automaton and the category of every class of code points, for the harness. *)
EXTENDS Emoji, Json, IOUtils, SequencesExt, TLC
U == INSTANCE Ucd
Raw == JsonDeserialize(IOEnv.CLASSES)
CatSeq == << "Emoji", "EmojiTextPresentation", "EmojiEmojiPresentation", "EmojiModifierBase", "EmojiModifier", "EmojiVSBase",
             "RegionalIndicator", "KeyCapBase", "CombiningEnclosingKeyCap", "CombiningEnclosingCircleBackslash", "ZWJ", "VS15", "VS16",
             "TagBase", "TagSequence", "TagTerm", "Invalid" >>
StateSeq == << "start" >> \o SetToSeq(States \ {"start"})
Num(s, x) == (CHOOSE i \in DOMAIN s : s[i] = x) - 1
ASSUME { CatSeq[i] : i \in DOMAIN CatSeq } = Cats
ASSUME JsonSerialize(IOEnv.OUT,
  [ cats |-> CatSeq, of |-> [i \in DOMAIN Raw |-> Num(CatSeq, U!Category(Raw[i]))],
    dead |-> Num(StateSeq, "dead"),
    accepts |-> [i \in DOMAIN StateSeq |-> CASE Accepts(StateSeq[i]) = "no" -> 0 [] Accepts(StateSeq[i]) = "Text" -> 1 [] OTHER -> 2],
    next |-> [i \in DOMAIN StateSeq |-> [c \in DOMAIN CatSeq |-> Num(StateSeq, Step(StateSeq[i], CatSeq[c]))]] ])
=============================================================================
