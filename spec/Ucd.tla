-------------------------------- MODULE Ucd --------------------------------
(***************************************************************************)
(* What the library derives from the raw properties of a code point.       *)
(* A code point is seen as its class: the raw values the Unicode Character *)
(* Database files list for it ("" / <<>> / FALSE where they list nothing). *)
(*   gc, ea, gcb, wb, incb, sc, age, hst, insc, block : strings            *)
(*   scx : sequence of scripts as listed                                   *)
(*   em, ep, ec, emod, emb, xp : emoji-data.txt; ge : Grapheme_Extend      *)
(*   vb : base of an emoji variation sequence; mir : Bidi_Mirrored         *)
(*   glyph : Bidi_Mirroring_Glyph or -1; core : listed core properties     *)
(*   plane : number of the plane                                           *)
(*   sp : the code point itself for the few the derivations name, else 0   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Or(v, default) == IF v = "" THEN default ELSE v

(* ---- column width of a single code point --------------------------------- *)
SoftHyphen == 173
NoColumns == {"Control", "Enclosing_Mark", "Format", "Line_Separator", "Nonspacing_Mark", "Paragraph_Separator",
              "Spacing_Mark", "Surrogate"}
Width(c) ==
  IF c.hst \in {"Vowel_Jamo", "Trailing_Jamo"} THEN 0
  ELSE IF c.sp = SoftHyphen \/ (c.gc = "Format" /\ c.gcb = "Prepend") THEN 1
  ELSE IF c.gc \in NoColumns THEN 0
  ELSE IF c.ep \/ c.ea \in {"Wide", "Fullwidth"} THEN 2
  ELSE 1

(* ---- category of the emoji segmentation grammar ------------------------- *)
TagBase == 127988
Category(c) ==
  IF c.sp = 8419 THEN "CombiningEnclosingKeyCap"
  ELSE IF c.sp = 8416 THEN "CombiningEnclosingCircleBackslash"
  ELSE IF c.sp = 8205 THEN "ZWJ"
  ELSE IF c.sp = 65038 THEN "VS15"
  ELSE IF c.sp = 65039 THEN "VS16"
  ELSE IF c.sp = TagBase THEN "TagBase"
  ELSE IF c.sp \in 917552..917561 \cup 917601..917626 THEN "TagSequence"
  ELSE IF c.sp = 917631 THEN "TagTerm"
  ELSE IF c.emb THEN "EmojiModifierBase"
  ELSE IF c.emod THEN "EmojiModifier"
  ELSE IF c.gcb = "Regional_Indicator" THEN "RegionalIndicator"
  ELSE IF c.sp \in 48..57 \cup {35, 42} THEN "KeyCapBase"
  ELSE IF c.ep THEN "EmojiEmojiPresentation"
  ELSE IF c.em THEN "EmojiTextPresentation"
  ELSE "Invalid"

(* ---- the combined record --------------------------------------------------- *)
Record(c) ==
  [ char_width |-> Width(c),
    emoji |-> c.em, emoji_presentation |-> c.ep, emoji_component |-> c.ec, emoji_modifier |-> c.emod,
    emoji_modifier_base |-> c.emb, extended_pictographic |-> c.xp, core_grapheme_extend |-> c.ge,
    virama |-> c.insc \in {"Virama", "Invisible_Stacker"}, emoji_variation_base |-> c.vb,
    script |-> Or(c.sc, "Unknown"),
    grapheme_cluster_break |-> Or(c.gcb, "Other"),
    east_asian_width |-> Or(c.ea, "Narrow"),
    general_category |-> Or(c.gc, "Unassigned"),
    emoji_segmentation_category |-> Category(c),
    age |-> Or(c.age, "Unassigned"),
    indic_conjunct_break |-> Or(c.incb, "None"),
    word_break |-> Or(c.wb, "Other") ]

(* ---- the range queries ------------------------------------------------------ *)
PlaneName(p) ==
  CASE p = 0 -> "Basic_Multilingual_Plane" [] p = 1 -> "Supplementary_Multilingual_Plane"
    [] p = 2 -> "Supplementary_Ideographic_Plane" [] p = 3 -> "Tertiary_Ideographic_Plane"
    [] p = 14 -> "Supplementary_Special_purpose_Plane" [] p \in {15, 16} -> "Supplementary_Private_Use_Area_Plane"
    [] OTHER -> "Unassigned"
WidthName(e) ==
  CASE e = "Fullwidth" -> "FullWidth" [] e = "Halfwidth" -> "HalfWidth" [] e = "" -> "Unspecified" [] OTHER -> e

Query(c) ==
  [ plane |-> PlaneName(c.plane), block |-> Or(c.block, "Unspecified"), script |-> Or(c.sc, "Unknown"),
    script_extensions |-> c.scx, has_script_extensions |-> Len(c.scx) > 0,
    general_category |-> Or(c.gc, "Unspecified"),
    categories |-> IF c.gc = "" THEN <<>> ELSE << c.gc >>,       \* contains(General_Category, .) holds exactly for these
    is_categories |-> IF c.gc = "" THEN <<>> ELSE << c.gc >>,
    core |-> c.core,
    grapheme_cluster_break |-> Or(c.gcb, "Undefined"),
    east_asian_width |-> WidthName(c.ea), width_text |-> WidthName(c.ea),
    emoji |-> c.em, emoji_presentation |-> c.ep, emoji_component |-> c.ec, emoji_modifier |-> c.emod,
    emoji_modifier_base |-> c.emb, extended_pictographic |-> c.xp,
    mirrored |-> c.mir, glyph |-> c.glyph ]

(* beyond the code space: no range contains the value *)
Nothing == [ gc |-> "", ea |-> "", gcb |-> "", wb |-> "", incb |-> "", sc |-> "", age |-> "", hst |-> "", insc |-> "",
             block |-> "", scx |-> <<>>, em |-> FALSE, ep |-> FALSE, ec |-> FALSE, emod |-> FALSE, emb |-> FALSE,
             xp |-> FALSE, ge |-> FALSE, vb |-> FALSE, mir |-> FALSE, glyph |-> -1, core |-> <<>>, plane |-> 17, sp |-> 0 ]

(* ---- consistency of what is derived (checked for every class) ---------------- *)
InSeq(x, q) == \E i \in DOMAIN q : q[i] = x
Consistent(c) ==
  LET r == Record(c)
      q == Query(c)
  IN /\ r.char_width \in 0..2
     \* an emoji in emoji presentation is two columns wide; a mark never occupies a column
     /\ r.emoji_presentation => r.char_width = 2 /\ r.emoji
     /\ r.general_category \in {"Nonspacing_Mark", "Enclosing_Mark"} => r.char_width = 0
     /\ r.emoji_modifier => r.emoji /\ r.emoji_segmentation_category = "EmojiModifier"
     /\ r.core_grapheme_extend => r.grapheme_cluster_break \in {"Extend", "ZWJ"}
     /\ r.core_grapheme_extend <=> InSeq("Grapheme_Extend", q.core)
     /\ (r.emoji_segmentation_category = "RegionalIndicator") <=> (r.grapheme_cluster_break = "Regional_Indicator")
     \* where the database lists a value, both interfaces tell it
     /\ q.general_category # "Unspecified" => q.general_category = r.general_category
     /\ q.grapheme_cluster_break # "Undefined" => q.grapheme_cluster_break = r.grapheme_cluster_break
     /\ q.script = r.script
     /\ q.has_script_extensions => \A i, j \in DOMAIN q.script_extensions : i # j => q.script_extensions[i] # q.script_extensions[j]
     /\ (q.glyph # -1) => q.mirrored
=============================================================================
