----------------------------- MODULE CursorTrace -----------------------------
(* Recorded histories of several objects: after every operation its answer, what every object shows, and (for kinds
   with ==) which of them are equal. *)
EXTENDS Cursor, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
Good(t, objs, before, e) ==
  /\ e.op \in {"step", "post"} => e.res = Answer(t.texts, before[e.d])
  /\ e.cur = [i \in DOMAIN objs |-> Shows(t.texts, objs[i])]
  /\ t.how = "none" \/ e.eq = [i \in DOMAIN objs |-> [j \in DOMAIN objs |-> IF Equal(t.how, t.texts, objs[i], objs[j]) THEN 1 ELSE 0]]
RECURSIVE Run(_, _, _)
Run(t, objs, i) == i > Len(t.ops) \/ LET n == Do(t.texts, objs, t.ops[i]) IN Good(t, n, objs, t.ops[i]) /\ Run(t, n, i + 1)
(* The uninterrupted run settles, and it tells what the spec says about availability. *)
Sane(t) == \A x \in DOMAIN t.texts : LET d == t.texts[x] IN
             /\ Len(d.cur) = Len(d.res) /\ Len(d.avail) = Len(d.cur)
             /\ t.how # "range" \/ d.avail[Len(d.cur)] = 0
VARIABLES tid, l
Init == tid = 0 /\ l \in 1..64
Next == tid = 0 /\ tid' \in { t \in DOMAIN Traces : t % 64 = l - 1 } /\ l' = l
Conform == tid = 0 \/ LET t == Traces[tid] IN Sane(t) /\ Run(t, [i \in 1..t.slots |-> New(1)], 1)
=============================================================================
