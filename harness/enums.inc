// written by tools/mkenums.py
E(Plane, Basic_Multilingual_Plane)
E(Plane, Supplementary_Ideographic_Plane)
E(Plane, Supplementary_Multilingual_Plane)
E(Plane, Supplementary_Private_Use_Area_Plane)
E(Plane, Supplementary_Special_purpose_Plane)
E(Plane, Tertiary_Ideographic_Plane)
E(Plane, Unassigned)
E(Age, Unassigned)
E(Age, V1_1)
E(Age, V2_0)
E(Age, V2_1)
E(Age, V3_0)
E(Age, V3_1)
E(Age, V3_2)
E(Age, V4_0)
E(Age, V4_1)
E(Age, V5_0)
E(Age, V5_1)
E(Age, V5_2)
E(Age, V6_0)
E(Age, V6_1)
E(Age, V6_2)
E(Age, V6_3)
E(Age, V7_0)
E(Age, V8_0)
E(Age, V9_0)
E(Age, V10_0)
E(Age, V11_0)
E(Age, V12_0)
E(Age, V12_1)
E(Age, V13_0)
E(Age, V14_0)
E(Age, V15_0)
E(Age, V15_1)
E(Bidi_Class, Arabic_Letter)
E(Bidi_Class, Arabic_Number)
E(Bidi_Class, Boundary_Neutral)
E(Bidi_Class, Common_Separator)
E(Bidi_Class, European_Number)
E(Bidi_Class, European_Separator)
E(Bidi_Class, European_Terminator)
E(Bidi_Class, First_Strong_Isolate)
E(Bidi_Class, Left_To_Right)
E(Bidi_Class, Left_To_Right_Embedding)
E(Bidi_Class, Left_To_Right_Isolate)
E(Bidi_Class, Left_To_Right_Override)
E(Bidi_Class, Nonspacing_Mark)
E(Bidi_Class, Other_Neutral)
E(Bidi_Class, Paragraph_Separator)
E(Bidi_Class, Pop_Directional_Format)
E(Bidi_Class, Pop_Directional_Isolate)
E(Bidi_Class, Right_To_Left)
E(Bidi_Class, Right_To_Left_Embedding)
E(Bidi_Class, Right_To_Left_Isolate)
E(Bidi_Class, Right_To_Left_Override)
E(Bidi_Class, Segment_Separator)
E(Bidi_Class, White_Space)
E(Bidi_Paired_Bracket_Type, Close)
E(Bidi_Paired_Bracket_Type, None)
E(Bidi_Paired_Bracket_Type, Open)
E(Canonical_Combining_Class, A)
E(Canonical_Combining_Class, AL)
E(Canonical_Combining_Class, AR)
E(Canonical_Combining_Class, ATA)
E(Canonical_Combining_Class, ATAR)
E(Canonical_Combining_Class, ATB)
E(Canonical_Combining_Class, ATBL)
E(Canonical_Combining_Class, B)
E(Canonical_Combining_Class, BL)
E(Canonical_Combining_Class, BR)
E(Canonical_Combining_Class, CCC10)
E(Canonical_Combining_Class, CCC103)
E(Canonical_Combining_Class, CCC107)
E(Canonical_Combining_Class, CCC11)
E(Canonical_Combining_Class, CCC118)
E(Canonical_Combining_Class, CCC12)
E(Canonical_Combining_Class, CCC122)
E(Canonical_Combining_Class, CCC129)
E(Canonical_Combining_Class, CCC13)
E(Canonical_Combining_Class, CCC130)
E(Canonical_Combining_Class, CCC132)
E(Canonical_Combining_Class, CCC133)
E(Canonical_Combining_Class, CCC14)
E(Canonical_Combining_Class, CCC15)
E(Canonical_Combining_Class, CCC16)
E(Canonical_Combining_Class, CCC17)
E(Canonical_Combining_Class, CCC18)
E(Canonical_Combining_Class, CCC19)
E(Canonical_Combining_Class, CCC20)
E(Canonical_Combining_Class, CCC21)
E(Canonical_Combining_Class, CCC22)
E(Canonical_Combining_Class, CCC23)
E(Canonical_Combining_Class, CCC24)
E(Canonical_Combining_Class, CCC25)
E(Canonical_Combining_Class, CCC26)
E(Canonical_Combining_Class, CCC27)
E(Canonical_Combining_Class, CCC28)
E(Canonical_Combining_Class, CCC29)
E(Canonical_Combining_Class, CCC30)
E(Canonical_Combining_Class, CCC31)
E(Canonical_Combining_Class, CCC32)
E(Canonical_Combining_Class, CCC33)
E(Canonical_Combining_Class, CCC34)
E(Canonical_Combining_Class, CCC35)
E(Canonical_Combining_Class, CCC36)
E(Canonical_Combining_Class, CCC84)
E(Canonical_Combining_Class, CCC91)
E(Canonical_Combining_Class, DA)
E(Canonical_Combining_Class, DB)
E(Canonical_Combining_Class, HANR)
E(Canonical_Combining_Class, IS)
E(Canonical_Combining_Class, KV)
E(Canonical_Combining_Class, L)
E(Canonical_Combining_Class, NK)
E(Canonical_Combining_Class, NR)
E(Canonical_Combining_Class, OV)
E(Canonical_Combining_Class, R)
E(Canonical_Combining_Class, VR)
E(Decomposition_Type, Canonical)
E(Decomposition_Type, Circle)
E(Decomposition_Type, Compat)
E(Decomposition_Type, Final)
E(Decomposition_Type, Font)
E(Decomposition_Type, Fraction)
E(Decomposition_Type, Initial)
E(Decomposition_Type, Isolated)
E(Decomposition_Type, Medial)
E(Decomposition_Type, Narrow)
E(Decomposition_Type, Nobreak)
E(Decomposition_Type, None)
E(Decomposition_Type, Small)
E(Decomposition_Type, Square)
E(Decomposition_Type, Sub)
E(Decomposition_Type, Super)
E(Decomposition_Type, Vertical)
E(Decomposition_Type, Wide)
E(East_Asian_Width, Ambiguous)
E(East_Asian_Width, Fullwidth)
E(East_Asian_Width, Halfwidth)
E(East_Asian_Width, Narrow)
E(East_Asian_Width, Neutral)
E(East_Asian_Width, Wide)
E(Grapheme_Cluster_Break, Undefined)
E(Grapheme_Cluster_Break, CR)
E(Grapheme_Cluster_Break, Control)
E(Grapheme_Cluster_Break, E_Base)
E(Grapheme_Cluster_Break, E_Base_GAZ)
E(Grapheme_Cluster_Break, E_Modifier)
E(Grapheme_Cluster_Break, Extend)
E(Grapheme_Cluster_Break, Glue_After_Zwj)
E(Grapheme_Cluster_Break, L)
E(Grapheme_Cluster_Break, LF)
E(Grapheme_Cluster_Break, LV)
E(Grapheme_Cluster_Break, LVT)
E(Grapheme_Cluster_Break, Other)
E(Grapheme_Cluster_Break, Prepend)
E(Grapheme_Cluster_Break, Regional_Indicator)
E(Grapheme_Cluster_Break, SpacingMark)
E(Grapheme_Cluster_Break, T)
E(Grapheme_Cluster_Break, V)
E(Grapheme_Cluster_Break, ZWJ)
E(Hangul_Syllable_Type, LVT_Syllable)
E(Hangul_Syllable_Type, LV_Syllable)
E(Hangul_Syllable_Type, Leading_Jamo)
E(Hangul_Syllable_Type, Not_Applicable)
E(Hangul_Syllable_Type, Trailing_Jamo)
E(Hangul_Syllable_Type, Vowel_Jamo)
E(Indic_Conjunct_Break, Consonant)
E(Indic_Conjunct_Break, Extend)
E(Indic_Conjunct_Break, Linker)
E(Indic_Conjunct_Break, None)
E(Indic_Positional_Category, Bottom)
E(Indic_Positional_Category, Bottom_And_Left)
E(Indic_Positional_Category, Bottom_And_Right)
E(Indic_Positional_Category, Left)
E(Indic_Positional_Category, Left_And_Right)
E(Indic_Positional_Category, NA)
E(Indic_Positional_Category, Overstruck)
E(Indic_Positional_Category, Right)
E(Indic_Positional_Category, Top)
E(Indic_Positional_Category, Top_And_Bottom)
E(Indic_Positional_Category, Top_And_Bottom_And_Left)
E(Indic_Positional_Category, Top_And_Bottom_And_Right)
E(Indic_Positional_Category, Top_And_Left)
E(Indic_Positional_Category, Top_And_Left_And_Right)
E(Indic_Positional_Category, Top_And_Right)
E(Indic_Positional_Category, Visual_Order_Left)
E(Indic_Syllabic_Category, Avagraha)
E(Indic_Syllabic_Category, Bindu)
E(Indic_Syllabic_Category, Brahmi_Joining_Number)
E(Indic_Syllabic_Category, Cantillation_Mark)
E(Indic_Syllabic_Category, Consonant)
E(Indic_Syllabic_Category, Consonant_Dead)
E(Indic_Syllabic_Category, Consonant_Final)
E(Indic_Syllabic_Category, Consonant_Head_Letter)
E(Indic_Syllabic_Category, Consonant_Initial_Postfixed)
E(Indic_Syllabic_Category, Consonant_Killer)
E(Indic_Syllabic_Category, Consonant_Medial)
E(Indic_Syllabic_Category, Consonant_Placeholder)
E(Indic_Syllabic_Category, Consonant_Preceding_Repha)
E(Indic_Syllabic_Category, Consonant_Prefixed)
E(Indic_Syllabic_Category, Consonant_Subjoined)
E(Indic_Syllabic_Category, Consonant_Succeeding_Repha)
E(Indic_Syllabic_Category, Consonant_With_Stacker)
E(Indic_Syllabic_Category, Gemination_Mark)
E(Indic_Syllabic_Category, Invisible_Stacker)
E(Indic_Syllabic_Category, Joiner)
E(Indic_Syllabic_Category, Modifying_Letter)
E(Indic_Syllabic_Category, Non_Joiner)
E(Indic_Syllabic_Category, Nukta)
E(Indic_Syllabic_Category, Number)
E(Indic_Syllabic_Category, Number_Joiner)
E(Indic_Syllabic_Category, Other)
E(Indic_Syllabic_Category, Pure_Killer)
E(Indic_Syllabic_Category, Register_Shifter)
E(Indic_Syllabic_Category, Syllable_Modifier)
E(Indic_Syllabic_Category, Tone_Letter)
E(Indic_Syllabic_Category, Tone_Mark)
E(Indic_Syllabic_Category, Virama)
E(Indic_Syllabic_Category, Visarga)
E(Indic_Syllabic_Category, Vowel)
E(Indic_Syllabic_Category, Vowel_Dependent)
E(Indic_Syllabic_Category, Vowel_Independent)
E(Jamo_Short_Name, A)
E(Jamo_Short_Name, AE)
E(Jamo_Short_Name, B)
E(Jamo_Short_Name, BB)
E(Jamo_Short_Name, BS)
E(Jamo_Short_Name, C)
E(Jamo_Short_Name, D)
E(Jamo_Short_Name, DD)
E(Jamo_Short_Name, E)
E(Jamo_Short_Name, EO)
E(Jamo_Short_Name, EU)
E(Jamo_Short_Name, G)
E(Jamo_Short_Name, GG)
E(Jamo_Short_Name, GS)
E(Jamo_Short_Name, H)
E(Jamo_Short_Name, I)
E(Jamo_Short_Name, J)
E(Jamo_Short_Name, JJ)
E(Jamo_Short_Name, K)
E(Jamo_Short_Name, L)
E(Jamo_Short_Name, LB)
E(Jamo_Short_Name, LG)
E(Jamo_Short_Name, LH)
E(Jamo_Short_Name, LM)
E(Jamo_Short_Name, LP)
E(Jamo_Short_Name, LS)
E(Jamo_Short_Name, LT)
E(Jamo_Short_Name, M)
E(Jamo_Short_Name, N)
E(Jamo_Short_Name, NG)
E(Jamo_Short_Name, NH)
E(Jamo_Short_Name, NJ)
E(Jamo_Short_Name, O)
E(Jamo_Short_Name, OE)
E(Jamo_Short_Name, P)
E(Jamo_Short_Name, R)
E(Jamo_Short_Name, S)
E(Jamo_Short_Name, SS)
E(Jamo_Short_Name, T)
E(Jamo_Short_Name, U)
E(Jamo_Short_Name, WA)
E(Jamo_Short_Name, WAE)
E(Jamo_Short_Name, WE)
E(Jamo_Short_Name, WEO)
E(Jamo_Short_Name, WI)
E(Jamo_Short_Name, YA)
E(Jamo_Short_Name, YAE)
E(Jamo_Short_Name, YE)
E(Jamo_Short_Name, YEO)
E(Jamo_Short_Name, YI)
E(Jamo_Short_Name, YO)
E(Jamo_Short_Name, YU)
E(Joining_Group, African_Feh)
E(Joining_Group, African_Noon)
E(Joining_Group, African_Qaf)
E(Joining_Group, Ain)
E(Joining_Group, Alaph)
E(Joining_Group, Alef)
E(Joining_Group, Beh)
E(Joining_Group, Beth)
E(Joining_Group, Burushaski_Yeh_Barree)
E(Joining_Group, Dal)
E(Joining_Group, Dalath_Rish)
E(Joining_Group, E)
E(Joining_Group, Farsi_Yeh)
E(Joining_Group, Fe)
E(Joining_Group, Feh)
E(Joining_Group, Final_Semkath)
E(Joining_Group, Gaf)
E(Joining_Group, Gamal)
E(Joining_Group, Hah)
E(Joining_Group, Hamza_On_Heh_Goal)
E(Joining_Group, Hanifi_Rohingya_Kinna_Ya)
E(Joining_Group, Hanifi_Rohingya_Pa)
E(Joining_Group, He)
E(Joining_Group, Heh)
E(Joining_Group, Heh_Goal)
E(Joining_Group, Heth)
E(Joining_Group, Kaf)
E(Joining_Group, Kaph)
E(Joining_Group, Khaph)
E(Joining_Group, Knotted_Heh)
E(Joining_Group, Lam)
E(Joining_Group, Lamadh)
E(Joining_Group, Malayalam_Bha)
E(Joining_Group, Malayalam_Ja)
E(Joining_Group, Malayalam_Lla)
E(Joining_Group, Malayalam_Llla)
E(Joining_Group, Malayalam_Nga)
E(Joining_Group, Malayalam_Nna)
E(Joining_Group, Malayalam_Nnna)
E(Joining_Group, Malayalam_Nya)
E(Joining_Group, Malayalam_Ra)
E(Joining_Group, Malayalam_Ssa)
E(Joining_Group, Malayalam_Tta)
E(Joining_Group, Manichaean_Aleph)
E(Joining_Group, Manichaean_Ayin)
E(Joining_Group, Manichaean_Beth)
E(Joining_Group, Manichaean_Daleth)
E(Joining_Group, Manichaean_Dhamedh)
E(Joining_Group, Manichaean_Five)
E(Joining_Group, Manichaean_Gimel)
E(Joining_Group, Manichaean_Heth)
E(Joining_Group, Manichaean_Hundred)
E(Joining_Group, Manichaean_Kaph)
E(Joining_Group, Manichaean_Lamedh)
E(Joining_Group, Manichaean_Mem)
E(Joining_Group, Manichaean_Nun)
E(Joining_Group, Manichaean_One)
E(Joining_Group, Manichaean_Pe)
E(Joining_Group, Manichaean_Qoph)
E(Joining_Group, Manichaean_Resh)
E(Joining_Group, Manichaean_Sadhe)
E(Joining_Group, Manichaean_Samekh)
E(Joining_Group, Manichaean_Taw)
E(Joining_Group, Manichaean_Ten)
E(Joining_Group, Manichaean_Teth)
E(Joining_Group, Manichaean_Thamedh)
E(Joining_Group, Manichaean_Twenty)
E(Joining_Group, Manichaean_Waw)
E(Joining_Group, Manichaean_Yodh)
E(Joining_Group, Manichaean_Zayin)
E(Joining_Group, Meem)
E(Joining_Group, Mim)
E(Joining_Group, No_Joining_Group)
E(Joining_Group, Noon)
E(Joining_Group, Nun)
E(Joining_Group, Nya)
E(Joining_Group, Pe)
E(Joining_Group, Qaf)
E(Joining_Group, Qaph)
E(Joining_Group, Reh)
E(Joining_Group, Reversed_Pe)
E(Joining_Group, Rohingya_Yeh)
E(Joining_Group, Sad)
E(Joining_Group, Sadhe)
E(Joining_Group, Seen)
E(Joining_Group, Semkath)
E(Joining_Group, Shin)
E(Joining_Group, Straight_Waw)
E(Joining_Group, Swash_Kaf)
E(Joining_Group, Syriac_Waw)
E(Joining_Group, Tah)
E(Joining_Group, Taw)
E(Joining_Group, Teh_Marbuta)
E(Joining_Group, Teth)
E(Joining_Group, Thin_Yeh)
E(Joining_Group, Vertical_Tail)
E(Joining_Group, Waw)
E(Joining_Group, Yeh)
E(Joining_Group, Yeh_Barree)
E(Joining_Group, Yeh_With_Tail)
E(Joining_Group, Yudh)
E(Joining_Group, Yudh_He)
E(Joining_Group, Zain)
E(Joining_Group, Zhain)
E(Joining_Type, Dual_Joining)
E(Joining_Type, Join_Causing)
E(Joining_Type, Left_Joining)
E(Joining_Type, Non_Joining)
E(Joining_Type, Right_Joining)
E(Joining_Type, Transparent)
E(Line_Break, Aksara)
E(Line_Break, Aksara_Prebase)
E(Line_Break, Aksara_Start)
E(Line_Break, Alphabetic)
E(Line_Break, Ambiguous)
E(Line_Break, Break_After)
E(Line_Break, Break_Before)
E(Line_Break, Break_Both)
E(Line_Break, Break_Symbols)
E(Line_Break, Carriage_Return)
E(Line_Break, Close_Parenthesis)
E(Line_Break, Close_Punctuation)
E(Line_Break, Combining_Mark)
E(Line_Break, Complex_Context)
E(Line_Break, Conditional_Japanese_Starter)
E(Line_Break, Contingent_Break)
E(Line_Break, E_Base)
E(Line_Break, E_Modifier)
E(Line_Break, Exclamation)
E(Line_Break, Glue)
E(Line_Break, H2)
E(Line_Break, H3)
E(Line_Break, Hebrew_Letter)
E(Line_Break, Hyphen)
E(Line_Break, Ideographic)
E(Line_Break, Infix_Numeric)
E(Line_Break, Inseparable)
E(Line_Break, JL)
E(Line_Break, JT)
E(Line_Break, JV)
E(Line_Break, Line_Feed)
E(Line_Break, Mandatory_Break)
E(Line_Break, Next_Line)
E(Line_Break, Nonstarter)
E(Line_Break, Numeric)
E(Line_Break, Open_Punctuation)
E(Line_Break, Postfix_Numeric)
E(Line_Break, Prefix_Numeric)
E(Line_Break, Quotation)
E(Line_Break, Regional_Indicator)
E(Line_Break, Space)
E(Line_Break, Surrogate)
E(Line_Break, Unknown)
E(Line_Break, Virama)
E(Line_Break, Virama_Final)
E(Line_Break, Word_Joiner)
E(Line_Break, ZWJ)
E(Line_Break, ZWSpace)
E(NFC_Quick_Check, Maybe)
E(NFC_Quick_Check, No)
E(NFC_Quick_Check, Yes)
E(NFKC_Quick_Check, Maybe)
E(NFKC_Quick_Check, No)
E(NFKC_Quick_Check, Yes)
E(Numeric_Type, Decimal)
E(Numeric_Type, Digit)
E(Numeric_Type, None)
E(Numeric_Type, Numeric)
E(Sentence_Break, ATerm)
E(Sentence_Break, CR)
E(Sentence_Break, Close)
E(Sentence_Break, Extend)
E(Sentence_Break, Format)
E(Sentence_Break, LF)
E(Sentence_Break, Lower)
E(Sentence_Break, Numeric)
E(Sentence_Break, OLetter)
E(Sentence_Break, Other)
E(Sentence_Break, SContinue)
E(Sentence_Break, STerm)
E(Sentence_Break, Sep)
E(Sentence_Break, Sp)
E(Sentence_Break, Upper)
E(Vertical_Orientation, Rotated)
E(Vertical_Orientation, Transformed_Rotated)
E(Vertical_Orientation, Transformed_Upright)
E(Vertical_Orientation, Upright)
E(Word_Break, ALetter)
E(Word_Break, CR)
E(Word_Break, Double_Quote)
E(Word_Break, E_Base)
E(Word_Break, E_Base_GAZ)
E(Word_Break, E_Modifier)
E(Word_Break, Extend)
E(Word_Break, ExtendNumLet)
E(Word_Break, Format)
E(Word_Break, Glue_After_Zwj)
E(Word_Break, Hebrew_Letter)
E(Word_Break, Katakana)
E(Word_Break, LF)
E(Word_Break, MidLetter)
E(Word_Break, MidNum)
E(Word_Break, MidNumLet)
E(Word_Break, Newline)
E(Word_Break, Numeric)
E(Word_Break, Other)
E(Word_Break, Regional_Indicator)
E(Word_Break, Single_Quote)
E(Word_Break, WSegSpace)
E(Word_Break, ZWJ)
E(Core_Property, Alphabetic)
E(Core_Property, Case_Ignorable)
E(Core_Property, Cased)
E(Core_Property, Changes_When_Casefolded)
E(Core_Property, Changes_When_Casemapped)
E(Core_Property, Changes_When_Lowercased)
E(Core_Property, Changes_When_Titlecased)
E(Core_Property, Changes_When_Uppercased)
E(Core_Property, Default_Ignorable_Code_Point)
E(Core_Property, Grapheme_Base)
E(Core_Property, Grapheme_Extend)
E(Core_Property, Grapheme_Link)
E(Core_Property, ID_Continue)
E(Core_Property, ID_Start)
E(Core_Property, Lowercase)
E(Core_Property, Math)
E(Core_Property, Uppercase)
E(Core_Property, XID_Continue)
E(Core_Property, XID_Start)
E(General_Category, Unspecified)
E(General_Category, Close_Punctuation)
E(General_Category, Connector_Punctuation)
E(General_Category, Control)
E(General_Category, Currency_Symbol)
E(General_Category, Dash_Punctuation)
E(General_Category, Decimal_Number)
E(General_Category, Enclosing_Mark)
E(General_Category, Final_Punctuation)
E(General_Category, Format)
E(General_Category, Initial_Punctuation)
E(General_Category, Letter_Number)
E(General_Category, Line_Separator)
E(General_Category, Lowercase_Letter)
E(General_Category, Math_Symbol)
E(General_Category, Modifier_Letter)
E(General_Category, Modifier_Symbol)
E(General_Category, Nonspacing_Mark)
E(General_Category, Open_Punctuation)
E(General_Category, Other_Letter)
E(General_Category, Other_Number)
E(General_Category, Other_Punctuation)
E(General_Category, Other_Symbol)
E(General_Category, Paragraph_Separator)
E(General_Category, Private_Use)
E(General_Category, Space_Separator)
E(General_Category, Spacing_Mark)
E(General_Category, Surrogate)
E(General_Category, Titlecase_Letter)
E(General_Category, Unassigned)
E(General_Category, Uppercase_Letter)
E(Script, Invalid)
E(Script, Unknown)
E(Script, Common)
E(Script, Adlam)
E(Script, Ahom)
E(Script, Anatolian_Hieroglyphs)
E(Script, Arabic)
E(Script, Armenian)
E(Script, Avestan)
E(Script, Balinese)
E(Script, Bamum)
E(Script, Bassa_Vah)
E(Script, Batak)
E(Script, Bengali)
E(Script, Bhaiksuki)
E(Script, Bopomofo)
E(Script, Brahmi)
E(Script, Braille)
E(Script, Buginese)
E(Script, Buhid)
E(Script, Canadian_Aboriginal)
E(Script, Carian)
E(Script, Caucasian_Albanian)
E(Script, Chakma)
E(Script, Cham)
E(Script, Cherokee)
E(Script, Chorasmian)
E(Script, Coptic)
E(Script, Cuneiform)
E(Script, Cypriot)
E(Script, Cypro_Minoan)
E(Script, Cyrillic)
E(Script, Deseret)
E(Script, Devanagari)
E(Script, Dives_Akuru)
E(Script, Dogra)
E(Script, Duployan)
E(Script, Egyptian_Hieroglyphs)
E(Script, Elbasan)
E(Script, Elymaic)
E(Script, Ethiopic)
E(Script, Georgian)
E(Script, Glagolitic)
E(Script, Gothic)
E(Script, Grantha)
E(Script, Greek)
E(Script, Gujarati)
E(Script, Gunjala_Gondi)
E(Script, Gurmukhi)
E(Script, Han)
E(Script, Hangul)
E(Script, Hanifi_Rohingya)
E(Script, Hanunoo)
E(Script, Hatran)
E(Script, Hebrew)
E(Script, Hiragana)
E(Script, Imperial_Aramaic)
E(Script, Inherited)
E(Script, Inscriptional_Pahlavi)
E(Script, Inscriptional_Parthian)
E(Script, Javanese)
E(Script, Kaithi)
E(Script, Kannada)
E(Script, Katakana)
E(Script, Kawi)
E(Script, Kayah_Li)
E(Script, Kharoshthi)
E(Script, Khitan_Small_Script)
E(Script, Khmer)
E(Script, Khojki)
E(Script, Khudawadi)
E(Script, Lao)
E(Script, Latin)
E(Script, Lepcha)
E(Script, Limbu)
E(Script, Linear_A)
E(Script, Linear_B)
E(Script, Lisu)
E(Script, Lycian)
E(Script, Lydian)
E(Script, Mahajani)
E(Script, Makasar)
E(Script, Malayalam)
E(Script, Mandaic)
E(Script, Manichaean)
E(Script, Marchen)
E(Script, Masaram_Gondi)
E(Script, Medefaidrin)
E(Script, Meetei_Mayek)
E(Script, Mende_Kikakui)
E(Script, Meroitic_Cursive)
E(Script, Meroitic_Hieroglyphs)
E(Script, Miao)
E(Script, Modi)
E(Script, Mongolian)
E(Script, Mro)
E(Script, Multani)
E(Script, Myanmar)
E(Script, Nabataean)
E(Script, Nag_Mundari)
E(Script, Nandinagari)
E(Script, New_Tai_Lue)
E(Script, Newa)
E(Script, Nko)
E(Script, Nushu)
E(Script, Nyiakeng_Puachue_Hmong)
E(Script, Ogham)
E(Script, Ol_Chiki)
E(Script, Old_Hungarian)
E(Script, Old_Italic)
E(Script, Old_North_Arabian)
E(Script, Old_Permic)
E(Script, Old_Persian)
E(Script, Old_Sogdian)
E(Script, Old_South_Arabian)
E(Script, Old_Turkic)
E(Script, Old_Uyghur)
E(Script, Oriya)
E(Script, Osage)
E(Script, Osmanya)
E(Script, Pahawh_Hmong)
E(Script, Palmyrene)
E(Script, Pau_Cin_Hau)
E(Script, Phags_Pa)
E(Script, Phoenician)
E(Script, Psalter_Pahlavi)
E(Script, Rejang)
E(Script, Runic)
E(Script, Samaritan)
E(Script, Saurashtra)
E(Script, Sharada)
E(Script, Shavian)
E(Script, Siddham)
E(Script, SignWriting)
E(Script, Sinhala)
E(Script, Sogdian)
E(Script, Sora_Sompeng)
E(Script, Soyombo)
E(Script, Sundanese)
E(Script, Syloti_Nagri)
E(Script, Syriac)
E(Script, Tagalog)
E(Script, Tagbanwa)
E(Script, Tai_Le)
E(Script, Tai_Tham)
E(Script, Tai_Viet)
E(Script, Takri)
E(Script, Tamil)
E(Script, Tangsa)
E(Script, Tangut)
E(Script, Telugu)
E(Script, Thaana)
E(Script, Thai)
E(Script, Tibetan)
E(Script, Tifinagh)
E(Script, Tirhuta)
E(Script, Toto)
E(Script, Ugaritic)
E(Script, Vai)
E(Script, Vithkuqi)
E(Script, Wancho)
E(Script, Warang_Citi)
E(Script, Yezidi)
E(Script, Yi)
E(Script, Zanabazar_Square)
E(Block, Unspecified)
E(Block, Adlam)
E(Block, Aegean_Numbers)
E(Block, Ahom)
E(Block, Alchemical_Symbols)
E(Block, Alphabetic_Presentation_Forms)
E(Block, Anatolian_Hieroglyphs)
E(Block, Ancient_Greek_Musical_Notation)
E(Block, Ancient_Greek_Numbers)
E(Block, Ancient_Symbols)
E(Block, Arabic)
E(Block, Arabic_Extended_A)
E(Block, Arabic_Extended_B)
E(Block, Arabic_Extended_C)
E(Block, Arabic_Mathematical_Alphabetic_Symbols)
E(Block, Arabic_Presentation_Forms_A)
E(Block, Arabic_Presentation_Forms_B)
E(Block, Arabic_Supplement)
E(Block, Armenian)
E(Block, Arrows)
E(Block, Avestan)
E(Block, Balinese)
E(Block, Bamum)
E(Block, Bamum_Supplement)
E(Block, Basic_Latin)
E(Block, Bassa_Vah)
E(Block, Batak)
E(Block, Bengali)
E(Block, Bhaiksuki)
E(Block, Block_Elements)
E(Block, Bopomofo)
E(Block, Bopomofo_Extended)
E(Block, Box_Drawing)
E(Block, Brahmi)
E(Block, Braille_Patterns)
E(Block, Buginese)
E(Block, Buhid)
E(Block, Byzantine_Musical_Symbols)
E(Block, CJK_Compatibility)
E(Block, CJK_Compatibility_Forms)
E(Block, CJK_Compatibility_Ideographs)
E(Block, CJK_Compatibility_Ideographs_Supplement)
E(Block, CJK_Radicals_Supplement)
E(Block, CJK_Strokes)
E(Block, CJK_Symbols_and_Punctuation)
E(Block, CJK_Unified_Ideographs)
E(Block, CJK_Unified_Ideographs_Extension_A)
E(Block, CJK_Unified_Ideographs_Extension_B)
E(Block, CJK_Unified_Ideographs_Extension_C)
E(Block, CJK_Unified_Ideographs_Extension_D)
E(Block, CJK_Unified_Ideographs_Extension_E)
E(Block, CJK_Unified_Ideographs_Extension_F)
E(Block, CJK_Unified_Ideographs_Extension_G)
E(Block, CJK_Unified_Ideographs_Extension_H)
E(Block, CJK_Unified_Ideographs_Extension_I)
E(Block, Carian)
E(Block, Caucasian_Albanian)
E(Block, Chakma)
E(Block, Cham)
E(Block, Cherokee)
E(Block, Cherokee_Supplement)
E(Block, Chess_Symbols)
E(Block, Chorasmian)
E(Block, Combining_Diacritical_Marks)
E(Block, Combining_Diacritical_Marks_Extended)
E(Block, Combining_Diacritical_Marks_Supplement)
E(Block, Combining_Diacritical_Marks_for_Symbols)
E(Block, Combining_Half_Marks)
E(Block, Common_Indic_Number_Forms)
E(Block, Control_Pictures)
E(Block, Coptic)
E(Block, Coptic_Epact_Numbers)
E(Block, Counting_Rod_Numerals)
E(Block, Cuneiform)
E(Block, Cuneiform_Numbers_and_Punctuation)
E(Block, Currency_Symbols)
E(Block, Cypriot_Syllabary)
E(Block, Cypro_Minoan)
E(Block, Cyrillic)
E(Block, Cyrillic_Extended_A)
E(Block, Cyrillic_Extended_B)
E(Block, Cyrillic_Extended_C)
E(Block, Cyrillic_Extended_D)
E(Block, Cyrillic_Supplement)
E(Block, Deseret)
E(Block, Devanagari)
E(Block, Devanagari_Extended)
E(Block, Devanagari_Extended_A)
E(Block, Dingbats)
E(Block, Dives_Akuru)
E(Block, Dogra)
E(Block, Domino_Tiles)
E(Block, Duployan)
E(Block, Early_Dynastic_Cuneiform)
E(Block, Egyptian_Hieroglyph_Format_Controls)
E(Block, Egyptian_Hieroglyphs)
E(Block, Elbasan)
E(Block, Elymaic)
E(Block, Emoticons)
E(Block, Enclosed_Alphanumeric_Supplement)
E(Block, Enclosed_Alphanumerics)
E(Block, Enclosed_CJK_Letters_and_Months)
E(Block, Enclosed_Ideographic_Supplement)
E(Block, Ethiopic)
E(Block, Ethiopic_Extended)
E(Block, Ethiopic_Extended_A)
E(Block, Ethiopic_Extended_B)
E(Block, Ethiopic_Supplement)
E(Block, General_Punctuation)
E(Block, Geometric_Shapes)
E(Block, Geometric_Shapes_Extended)
E(Block, Georgian)
E(Block, Georgian_Extended)
E(Block, Georgian_Supplement)
E(Block, Glagolitic)
E(Block, Glagolitic_Supplement)
E(Block, Gothic)
E(Block, Grantha)
E(Block, Greek_Extended)
E(Block, Greek_and_Coptic)
E(Block, Gujarati)
E(Block, Gunjala_Gondi)
E(Block, Gurmukhi)
E(Block, Halfwidth_and_Fullwidth_Forms)
E(Block, Hangul_Compatibility_Jamo)
E(Block, Hangul_Jamo)
E(Block, Hangul_Jamo_Extended_A)
E(Block, Hangul_Jamo_Extended_B)
E(Block, Hangul_Syllables)
E(Block, Hanifi_Rohingya)
E(Block, Hanunoo)
E(Block, Hatran)
E(Block, Hebrew)
E(Block, High_Private_Use_Surrogates)
E(Block, High_Surrogates)
E(Block, Hiragana)
E(Block, IPA_Extensions)
E(Block, Ideographic_Description_Characters)
E(Block, Ideographic_Symbols_and_Punctuation)
E(Block, Imperial_Aramaic)
E(Block, Indic_Siyaq_Numbers)
E(Block, Inscriptional_Pahlavi)
E(Block, Inscriptional_Parthian)
E(Block, Javanese)
E(Block, Kaithi)
E(Block, Kaktovik_Numerals)
E(Block, Kana_Extended_A)
E(Block, Kana_Extended_B)
E(Block, Kana_Supplement)
E(Block, Kanbun)
E(Block, Kangxi_Radicals)
E(Block, Kannada)
E(Block, Katakana)
E(Block, Katakana_Phonetic_Extensions)
E(Block, Kawi)
E(Block, Kayah_Li)
E(Block, Kharoshthi)
E(Block, Khitan_Small_Script)
E(Block, Khmer)
E(Block, Khmer_Symbols)
E(Block, Khojki)
E(Block, Khudawadi)
E(Block, Lao)
E(Block, Latin_1_Supplement)
E(Block, Latin_Extended_A)
E(Block, Latin_Extended_Additional)
E(Block, Latin_Extended_B)
E(Block, Latin_Extended_C)
E(Block, Latin_Extended_D)
E(Block, Latin_Extended_E)
E(Block, Latin_Extended_F)
E(Block, Latin_Extended_G)
E(Block, Lepcha)
E(Block, Letterlike_Symbols)
E(Block, Limbu)
E(Block, Linear_A)
E(Block, Linear_B_Ideograms)
E(Block, Linear_B_Syllabary)
E(Block, Lisu)
E(Block, Lisu_Supplement)
E(Block, Low_Surrogates)
E(Block, Lycian)
E(Block, Lydian)
E(Block, Mahajani)
E(Block, Mahjong_Tiles)
E(Block, Makasar)
E(Block, Malayalam)
E(Block, Mandaic)
E(Block, Manichaean)
E(Block, Marchen)
E(Block, Masaram_Gondi)
E(Block, Mathematical_Alphanumeric_Symbols)
E(Block, Mathematical_Operators)
E(Block, Mayan_Numerals)
E(Block, Medefaidrin)
E(Block, Meetei_Mayek)
E(Block, Meetei_Mayek_Extensions)
E(Block, Mende_Kikakui)
E(Block, Meroitic_Cursive)
E(Block, Meroitic_Hieroglyphs)
E(Block, Miao)
E(Block, Miscellaneous_Mathematical_Symbols_A)
E(Block, Miscellaneous_Mathematical_Symbols_B)
E(Block, Miscellaneous_Symbols)
E(Block, Miscellaneous_Symbols_and_Arrows)
E(Block, Miscellaneous_Symbols_and_Pictographs)
E(Block, Miscellaneous_Technical)
E(Block, Modi)
E(Block, Modifier_Tone_Letters)
E(Block, Mongolian)
E(Block, Mongolian_Supplement)
E(Block, Mro)
E(Block, Multani)
E(Block, Musical_Symbols)
E(Block, Myanmar)
E(Block, Myanmar_Extended_A)
E(Block, Myanmar_Extended_B)
E(Block, NKo)
E(Block, Nabataean)
E(Block, Nag_Mundari)
E(Block, Nandinagari)
E(Block, New_Tai_Lue)
E(Block, Newa)
E(Block, Number_Forms)
E(Block, Nushu)
E(Block, Nyiakeng_Puachue_Hmong)
E(Block, Ogham)
E(Block, Ol_Chiki)
E(Block, Old_Hungarian)
E(Block, Old_Italic)
E(Block, Old_North_Arabian)
E(Block, Old_Permic)
E(Block, Old_Persian)
E(Block, Old_Sogdian)
E(Block, Old_South_Arabian)
E(Block, Old_Turkic)
E(Block, Old_Uyghur)
E(Block, Optical_Character_Recognition)
E(Block, Oriya)
E(Block, Ornamental_Dingbats)
E(Block, Osage)
E(Block, Osmanya)
E(Block, Ottoman_Siyaq_Numbers)
E(Block, Pahawh_Hmong)
E(Block, Palmyrene)
E(Block, Pau_Cin_Hau)
E(Block, Phags_pa)
E(Block, Phaistos_Disc)
E(Block, Phoenician)
E(Block, Phonetic_Extensions)
E(Block, Phonetic_Extensions_Supplement)
E(Block, Playing_Cards)
E(Block, Private_Use_Area)
E(Block, Psalter_Pahlavi)
E(Block, Rejang)
E(Block, Rumi_Numeral_Symbols)
E(Block, Runic)
E(Block, Samaritan)
E(Block, Saurashtra)
E(Block, Sharada)
E(Block, Shavian)
E(Block, Shorthand_Format_Controls)
E(Block, Siddham)
E(Block, Sinhala)
E(Block, Sinhala_Archaic_Numbers)
E(Block, Small_Form_Variants)
E(Block, Small_Kana_Extension)
E(Block, Sogdian)
E(Block, Sora_Sompeng)
E(Block, Soyombo)
E(Block, Spacing_Modifier_Letters)
E(Block, Specials)
E(Block, Sundanese)
E(Block, Sundanese_Supplement)
E(Block, Superscripts_and_Subscripts)
E(Block, Supplemental_Arrows_A)
E(Block, Supplemental_Arrows_B)
E(Block, Supplemental_Arrows_C)
E(Block, Supplemental_Mathematical_Operators)
E(Block, Supplemental_Punctuation)
E(Block, Supplemental_Symbols_and_Pictographs)
E(Block, Supplementary_Private_Use_Area_A)
E(Block, Supplementary_Private_Use_Area_B)
E(Block, Sutton_SignWriting)
E(Block, Syloti_Nagri)
E(Block, Symbols_and_Pictographs_Extended_A)
E(Block, Symbols_for_Legacy_Computing)
E(Block, Syriac)
E(Block, Syriac_Supplement)
E(Block, Tagalog)
E(Block, Tagbanwa)
E(Block, Tags)
E(Block, Tai_Le)
E(Block, Tai_Tham)
E(Block, Tai_Viet)
E(Block, Tai_Xuan_Jing_Symbols)
E(Block, Takri)
E(Block, Tamil)
E(Block, Tamil_Supplement)
E(Block, Tangsa)
E(Block, Tangut)
E(Block, Tangut_Components)
E(Block, Tangut_Supplement)
E(Block, Telugu)
E(Block, Thaana)
E(Block, Thai)
E(Block, Tibetan)
E(Block, Tifinagh)
E(Block, Tirhuta)
E(Block, Toto)
E(Block, Transport_and_Map_Symbols)
E(Block, Ugaritic)
E(Block, Unified_Canadian_Aboriginal_Syllabics)
E(Block, Unified_Canadian_Aboriginal_Syllabics_Extended)
E(Block, Unified_Canadian_Aboriginal_Syllabics_Extended_A)
E(Block, Vai)
E(Block, Variation_Selectors)
E(Block, Variation_Selectors_Supplement)
E(Block, Vedic_Extensions)
E(Block, Vertical_Forms)
E(Block, Vithkuqi)
E(Block, Wancho)
E(Block, Warang_Citi)
E(Block, Yezidi)
E(Block, Yi_Radicals)
E(Block, Yi_Syllables)
E(Block, Yijing_Hexagram_Symbols)
E(Block, Zanabazar_Square)
E(Block, Znamenny_Musical_Notation)
E(EastAsianWidth, Ambiguous)
E(EastAsianWidth, FullWidth)
E(EastAsianWidth, HalfWidth)
E(EastAsianWidth, Neutral)
E(EastAsianWidth, Narrow)
E(EastAsianWidth, Wide)
E(EastAsianWidth, Unspecified)
E(PresentationStyle, Text)
E(PresentationStyle, Emoji)
E(EmojiSegmentationCategory, Invalid)
E(EmojiSegmentationCategory, Emoji)
E(EmojiSegmentationCategory, EmojiTextPresentation)
E(EmojiSegmentationCategory, EmojiEmojiPresentation)
E(EmojiSegmentationCategory, EmojiModifierBase)
E(EmojiSegmentationCategory, EmojiModifier)
E(EmojiSegmentationCategory, EmojiVSBase)
E(EmojiSegmentationCategory, RegionalIndicator)
E(EmojiSegmentationCategory, KeyCapBase)
E(EmojiSegmentationCategory, CombiningEnclosingKeyCap)
E(EmojiSegmentationCategory, CombiningEnclosingCircleBackslash)
E(EmojiSegmentationCategory, ZWJ)
E(EmojiSegmentationCategory, VS15)
E(EmojiSegmentationCategory, VS16)
E(EmojiSegmentationCategory, TagBase)
E(EmojiSegmentationCategory, TagSequence)
E(EmojiSegmentationCategory, TagTerm)
#ifdef G
G(close_punctuation, Close_Punctuation)
G(connector_punctuation, Connector_Punctuation)
G(control, Control)
G(currency_symbol, Currency_Symbol)
G(dash_punctuation, Dash_Punctuation)
G(decimal_number, Decimal_Number)
G(enclosing_mark, Enclosing_Mark)
G(final_punctuation, Final_Punctuation)
G(format, Format)
G(initial_punctuation, Initial_Punctuation)
G(letter_number, Letter_Number)
G(line_separator, Line_Separator)
G(lowercase_letter, Lowercase_Letter)
G(math_symbol, Math_Symbol)
G(modifier_letter, Modifier_Letter)
G(modifier_symbol, Modifier_Symbol)
G(nonspacing_mark, Nonspacing_Mark)
G(open_punctuation, Open_Punctuation)
G(other_letter, Other_Letter)
G(other_number, Other_Number)
G(other_punctuation, Other_Punctuation)
G(other_symbol, Other_Symbol)
G(paragraph_separator, Paragraph_Separator)
G(private_use, Private_Use)
G(space_separator, Space_Separator)
G(spacing_mark, Spacing_Mark)
G(surrogate, Surrogate)
G(titlecase_letter, Titlecase_Letter)
G(unassigned, Unassigned)
G(uppercase_letter, Uppercase_Letter)
#endif
#ifdef C
C(Alphabetic)
C(Case_Ignorable)
C(Cased)
C(Changes_When_Casefolded)
C(Changes_When_Casemapped)
C(Changes_When_Lowercased)
C(Changes_When_Titlecased)
C(Changes_When_Uppercased)
C(Default_Ignorable_Code_Point)
C(Grapheme_Base)
C(Grapheme_Extend)
C(Grapheme_Link)
C(ID_Continue)
C(ID_Start)
C(Lowercase)
C(Math)
C(Uppercase)
C(XID_Continue)
C(XID_Start)
#endif
