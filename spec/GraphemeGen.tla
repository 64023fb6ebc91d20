---------------------------- MODULE GraphemeGen ----------------------------
(* The reachable states of the continued and of the restarted machine, with the access strings and transitions. *)
EXTENDS Grapheme, TLC, Json, IOUtils, SequencesExt
Tab == JsonDeserialize(IOEnv.CLASSES)
N == Len(Tab)
RECURSIVE Reach(_, _, _)
(* acc: sequence of [st, path]; todo: index of the next one to expand *)
Reach(F(_, _), acc, todo) ==
  IF todo > Len(acc) THEN acc ELSE
  LET RECURSIVE Add(_, _)
      Add(a, c) == IF c > N THEN a ELSE
                   LET t == F(acc[todo].st, Tab[c]) IN
                   Add(IF \E i \in DOMAIN a : a[i].st = t THEN a
                       ELSE Append(a, [st |-> t, path |-> Append(acc[todo].path, c - 1)]), c + 1)
  IN Reach(F, Add(acc, 1), todo + 1)
RECURSIVE Start(_, _)
Start(a, c) == IF c > N THEN a ELSE
  Start(IF \E i \in DOMAIN a : a[i].st = Begin(Tab[c]) THEN a
        ELSE Append(a, [st |-> Begin(Tab[c]), path |-> << c - 1 >>]), c + 1)
All == Reach(Step, Start(<<>>, 1), 1)
Idx(t) == (CHOOSE i \in DOMAIN All : All[i].st = t) - 1
ASSUME JsonSerialize(IOEnv.OUT,
  [ begin |-> [c \in 1..N |-> Idx(Begin(Tab[c]))],
    paths |-> [i \in DOMAIN All |-> All[i].path],
    trans |-> [i \in DOMAIN All |-> [c \in 1..N |-> << IF Break(All[i].st, Tab[c]) THEN 1 ELSE 0, Idx(Step(All[i].st, Tab[c])) >>]] ])
=============================================================================
