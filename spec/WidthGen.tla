------------------------------ MODULE WidthGen ------------------------------
(* The distinct attribute classes of the code space and the reachable control states of the measure. *)
EXTENDS Width, TLC, Json, IOUtils, SequencesExt
Raw == JsonDeserialize(IOEnv.CLASSES)
A == [i \in DOMAIN Raw |-> Attr(Raw[i])]
Cls == SetToSeq({ A[i] : i \in DOMAIN A })
N == Len(Cls)
Num(a) == (CHOOSE i \in 1..N : Cls[i] = a) - 1
Ctl(st) == [st EXCEPT !.tot = 0]
RECURSIVE Add(_, _, _), Reach(_, _)
Add(acc, todo, c) ==
  IF c > N THEN acc ELSE
  LET t == Ctl(Push(acc[todo].st, Cls[c])) IN
  Add(IF \E i \in DOMAIN acc : acc[i].st = t THEN acc ELSE Append(acc, [st |-> t, path |-> Append(acc[todo].path, c - 1)]), todo, c + 1)
Reach(acc, todo) == IF todo > Len(acc) THEN acc ELSE Reach(Add(acc, todo, 1), todo + 1)
All == Reach(<< [st |-> Start, path |-> <<>>] >>, 1)
Idx(st) == (CHOOSE i \in DOMAIN All : All[i].st = st) - 1
ASSUME JsonSerialize(IOEnv.OUT,
  [ classes |-> Cls, of |-> [i \in DOMAIN A |-> Num(A[i])],
    states |-> [i \in DOMAIN All |-> [cur |-> All[i].st.cur, path |-> All[i].path,
                                      next |-> [c \in 1..N |-> Idx(Ctl(Push(All[i].st, Cls[c])))],
                                      add |-> [c \in 1..N |-> Push(All[i].st, Cls[c]).tot]]] ])
=============================================================================
