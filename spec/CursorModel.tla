----------------------------- MODULE CursorModel -----------------------------
(* Every history of a few objects over texts of different lengths.  ghost[i] is how the object came about: the text and
   the number of steps since its construction, followed through copies. *)
EXTENDS Cursor, FiniteSets
CONSTANTS Slots, MaxSize, How
Min(a, b) == IF a < b THEN a ELSE b
Texts == [t \in 1..(MaxSize + 1) |->
            [cur |-> [k \in 1..(t + 1) |-> << t, k >>], res |-> [k \in 1..(t + 1) |-> << t, k >>],
             avail |-> [k \in 1..(t + 1) |-> IF k < t - 1 THEN 1 ELSE 0]]]
VARIABLES objs, ghost
Ops == { e \in [op : {"new", "end"}, d : Slots, s : {1}, t : DOMAIN Texts] : TRUE }
       \cup [op : {"copy", "post", "swap"}, d : Slots, s : Slots, t : {1}] \cup [op : {"step"}, d : Slots, s : {1}, t : {1}]
Ghost(e) ==
  CASE e.op = "new" -> [ghost EXCEPT ![e.d] = << e.t, 0 >>]
    [] e.op = "end" -> [ghost EXCEPT ![e.d] = << e.t, Len(Texts[e.t].cur) >>]
    [] e.op = "copy" -> [ghost EXCEPT ![e.d] = ghost[e.s]]
    [] e.op = "swap" -> [ghost EXCEPT ![e.d] = ghost[e.s], ![e.s] = ghost[e.d]]
    [] e.op = "post" -> [ghost EXCEPT ![e.d] = << @[1], Min(@[2] + 1, MaxSize + 2) >>, ![e.s] = ghost[e.d]]
    [] e.op = "step" -> [ghost EXCEPT ![e.d] = << @[1], Min(@[2] + 1, MaxSize + 2) >>]
Init == objs = [i \in Slots |-> New(1)] /\ ghost = [i \in Slots |-> << 1, 0 >>]
Next == \E e \in Ops : (e.op \in {"post", "swap"} => e.d # e.s) /\ objs' = Do(Texts, objs, e) /\ ghost' = Ghost(e)
(* What an object shows is a function of its own past alone. *)
Independent == \A i \in Slots : objs[i] = [t |-> ghost[i][1], k |-> Min(ghost[i][2] + 1, Len(Texts[ghost[i][1]].cur))]
Eq(a, b) == Equal(How, Texts, a, b)
Equivalence == /\ \A i \in Slots : Eq(objs[i], objs[i])
               /\ \A i, j \in Slots : Eq(objs[i], objs[j]) = Eq(objs[j], objs[i])
               /\ \A i, j, m \in Slots : Eq(objs[i], objs[j]) /\ Eq(objs[j], objs[m]) => Eq(objs[i], objs[m])
Congruence == \A i, j \in Slots : Eq(objs[i], objs[j]) => Eq(Step(Texts, objs[i]), Step(Texts, objs[j]))
Settles == \A i \in Slots : LET e == End(Texts, objs[i].t) IN Step(Texts, e) = e /\ ~Avail(Texts, e)
=============================================================================
