------------------------------ MODULE NormTrace ------------------------------
(* Recorded normalizations of the real code. *)
EXTENDS Norm, NormData, TLC
U == INSTANCE Utf
Traces == ndJsonDeserialize(IOEnv.TRACES)
Canonicals == {"NFC", "NFD"}

(* properties of one code point *)
PlainCp(c) == CccOf(c) = 0 /\ DmOf(c) = <<>> /\ ~IsSyllable(c) /\ ~SecondOf(c) /\ ~IsV(c) /\ ~IsT(c)
Point(t) ==
  LET c == t.c IN
  /\ t.ccc = CccOf(c)
  /\ t.type = (IF IsSyllable(c) THEN "canonical" ELSE TypeOf(c))
  /\ t.canon = (IF IsSyllable(c) THEN Jamos(c) ELSE IF CanonOf(c) THEN DmOf(c) ELSE <<>>)
  /\ t.compat = (IF IsSyllable(c) THEN Jamos(c) ELSE DmOf(c))
  /\ t.excl = (c \in Excluded)
  /\ t.listed = (c \in Listed)
  /\ \A f \in Forms : t.qc[f] = Qc(c, f) /\ t.nf[f] = Normal(<< c >>, f)
Range(t) == \A c \in t.lo..t.hi : PlainCp(c)
(* one text, all forms *)
Text(t) ==
  /\ \A f \in Forms :
       LET n == Normal(t.in, f) IN
       /\ t.nf[f] = n /\ t.quick[f] = Quick(t.in, f) /\ t.is[f] = (n = t.in)
       /\ t.stream[f] = n
  /\ t.canonical = (Normal(t.in, "NFD") = Normal(t.other, "NFD"))
  /\ t.compatible = (Normal(t.in, "NFKD") = Normal(t.other, "NFKD"))
(* one UTF-8 text, all forms, streamed in chunks *)
Bytes(t) ==
  LET s == U!ConvDecode(t.in)
      w == U!StreamText(t.in)
  IN /\ \A f \in Forms :
          LET n == Normal(s, f) IN
          /\ t.nf[f] = U!Encode8All(n) /\ t.quick[f] = Quick(s, f) /\ t.is[f] = (n = s)
          /\ t.stream[f] = U!Encode8All(Normal(w, f))
     /\ t.canonical = (U!Encode8All(Normal(s, "NFD")) = U!Encode8All(Normal(U!ConvDecode(t.other), "NFD")))
     /\ t.compatible = (U!Encode8All(Normal(s, "NFKD")) = U!Encode8All(Normal(U!ConvDecode(t.other), "NFKD")))
(* Hangul functions: decomposition of one value, composition of three *)
HangulOne(t) == /\ t.syl = IsSyllable(t.c) /\ t.l = IsL(t.c) /\ t.v = IsV(t.c) /\ t.t = IsT(t.c)
                /\ t.out = IF IsSyllable(t.c) THEN Jamos(t.c) ELSE <<>>
HangulNone(t) == \A c \in {t.lo, t.hi, (t.lo + t.hi) \div 2} : ~IsSyllable(c) /\ ~IsL(c) /\ ~IsV(c) /\ ~IsT(c)
HangulRange(t) == HangulNone(t) /\ (t.hi < LBase \/ (t.lo > TBase + TCount - 1 /\ (t.hi < SBase \/ t.lo > SBase + SCount - 1))
                                    \/ (t.lo > LBase + LCount - 1 /\ t.hi <= TBase /\ (t.hi < VBase \/ t.lo > VBase + VCount - 1)))
HangulThree(t) == t.out = ComposeJamos(t.in[1], t.in[2], t.in[3])

Ok(t) == CASE t.k = "point" -> Point(t) [] t.k = "range" -> Range(t) [] t.k = "text" -> Text(t) [] t.k = "bytes" -> Bytes(t)
           [] t.k = "hangul" -> HangulOne(t) [] t.k = "nohangul" -> HangulRange(t) [] t.k = "compose" -> HangulThree(t)
VARIABLES tid, l
Init == tid = 0 /\ l \in 1..64
Next == tid = 0 /\ tid' \in { t \in DOMAIN Traces : t % 64 = l - 1 } /\ l' = l
Conform == tid = 0 \/ Ok(Traces[tid])
=============================================================================
