----------------------------- MODULE WidthModel -----------------------------
(* Laws of the measure, on all class strings. *)
EXTENDS Width, TLC, Json, IOUtils
CONSTANTS MaxLen
Cls == LET t == JsonDeserialize(IOEnv.WCLASSES) IN { t[i] : i \in DOMAIN t }
VARIABLES s, st
Init == s = <<>> /\ st = Start
Next == Len(s) < MaxLen /\ \E c \in Cls : s' = Append(s, c) /\ st' = Push(st, c)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q).w + Sum(Tail(q))
Last == s[Len(s)]
Before == Run(Start, SubSeq(s, 1, Len(s) - 1), 1)
Plain(c) == ~c.zwj /\ ~c.vs15 /\ ~c.vs16 /\ ~c.ri /\ ~c.tone /\ ~c.vir /\ ~c.mc
All(P(_)) == \A i \in DOMAIN s : P(s[i])

TypeOK == st.lw \in 0..2 /\ st.cur \in 0..2 /\ st.tot \in -MaxLen..(2 * MaxLen)
Fold == st = Run(Start, s, 1)
Single == Len(s) = 1 => Columns(st) = s[1].w
NotNegative == Columns(st) >= 0
SumOfPlain == All(Plain) => Columns(st) = Sum(s)
(* a zero-width code point without a role changes nothing *)
Transparent == s # <<>> /\ Plain(Last) /\ Last.w = 0 => Columns(st) = Columns(Before)
(* VS16 asks for two columns of a narrow variation base, and never asks twice; it does nothing behind anything else *)
Vs16 == Len(s) >= 2 /\ Last.vs16 /\ ~Before.skip =>
          LET b == s[Len(s) - 1] IN
          /\ Plain(b) /\ b.w > 0 /\ ~b.vb /\ Before.last = Base(b) /\ Before.open => Columns(st) = Columns(Before)
          /\ b.vs16 /\ ~Run(Start, SubSeq(s, 1, Len(s) - 2), 1).skip => Columns(st) = Columns(Before)
Vs16Base == Len(s) = 2 /\ Last.vs16 /\ s[1].vb /\ s[1].w > 0 => Columns(st) = 2
Vs15Base == Len(s) = 2 /\ Last.vs15 /\ s[1].w > 0 => Columns(st) = IF s[1].vb THEN 1 ELSE s[1].w
(* regional indicators take the columns of every other one *)
Flags == All(LAMBDA c : c.ri) /\ s # <<>> => Columns(st) = s[1].w * ((Len(s) + 1) \div 2)
(* a joiner and what it joins add nothing *)
Joined == Len(s) >= 2 /\ s[Len(s) - 1].zwj /\ Run(Start, SubSeq(s, 1, Len(s) - 1), 1).skip
            => Columns(st) = Columns(Run(Start, SubSeq(s, 1, Len(s) - 2), 1))
Absorbed == Len(s) = 2 /\ Last.tone /\ (s[1].xp \/ s[1].ri) => Columns(st) = s[1].w
Conjunct == Len(s) = 3 /\ s[2].vir /\ s[2].w = 0 /\ Plain(Last) /\ Last.w > 0 /\ s[1].w > 0 => Columns(st) = 2
SpacingMark == Len(s) = 2 /\ Last.mc /\ ~Last.vir /\ s[1].w > 0 => Columns(st) = 2
(* at most two columns more for every code point *)
Bounded == s # <<>> => Columns(st) <= Columns(Before) + 2
=============================================================================
