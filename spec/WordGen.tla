------------------------------ MODULE WordGen ------------------------------
EXTENDS Word, TLC, Json, IOUtils
Tab == JsonDeserialize(IOEnv.CLASSES)
N == Len(Tab)
Looks == << "none", "ALetter", "Hebrew_Letter", "Numeric" >>
RECURSIVE Reach(_, _)
Reach(acc, todo) ==
  IF todo > Len(acc) THEN acc ELSE
  LET RECURSIVE Add(_, _)
      Add(a, c) == IF c > N THEN a ELSE
                   LET t == Step(acc[todo].st, Tab[c]) IN
                   Add(IF \E i \in DOMAIN a : a[i].st = t THEN a
                       ELSE Append(a, [st |-> t, path |-> Append(acc[todo].path, c - 1)]), c + 1)
  IN Reach(Add(acc, 1), todo + 1)
RECURSIVE Start(_, _)
Start(a, c) == IF c > N THEN a ELSE
  Start(IF \E i \in DOMAIN a : a[i].st = Begin(Tab[c]) THEN a
        ELSE Append(a, [st |-> Begin(Tab[c]), path |-> << c - 1 >>]), c + 1)
All == Reach(Start(<<>>, 1), 1)
Idx(t) == (CHOOSE i \in DOMAIN All : All[i].st = t) - 1
LookOf(c) == IF c.w \in Skipped THEN -1 ELSE (CHOOSE k \in 1..4 : Looks[k] = Look(c)) - 1
ASSUME JsonSerialize(IOEnv.OUT,
  [ begin |-> [c \in 1..N |-> Idx(Begin(Tab[c]))],
    look |-> [c \in 1..N |-> LookOf(Tab[c])],
    paths |-> [i \in DOMAIN All |-> All[i].path],
    trans |-> [i \in DOMAIN All |-> [c \in 1..N |->
       << Idx(Step(All[i].st, Tab[c])) >> \o [k \in 1..4 |-> IF Break(All[i].st, Tab[c], Looks[k]) THEN 1 ELSE 0] ]] ])
=============================================================================
