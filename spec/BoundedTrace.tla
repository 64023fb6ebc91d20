---------------------------- MODULE BoundedTrace ----------------------------
(* Recorded histories of real arrays (k = "array") and output parameters (k = "out").  Every event carries what was
   answered and what all objects show behind it. *)
EXTENDS Bounded, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
RECURSIVE Arrays(_, _, _, _)
Arrays(n, ev, j, objs) ==
  IF j > Len(ev) THEN TRUE
  ELSE LET e == ev[j]
           after == Do(n, objs, e)
       IN /\ e.ans = Answer(n, objs[e.d], e)
          /\ \A o \in DOMAIN after : /\ Looks(after[o], e.shows[o].items)
                                     /\ e.shows[o].size = Len(after[o])
                                     /\ e.shows[o].empty = (after[o] = <<>>)
                                     /\ e.shows[o].capacity = n
                                     /\ after[o] # <<>> => Looks(<<after[o][1], after[o][Len(after[o])]>>, e.shows[o].ends)
          \* what an enlargement brought up stays what it then was
          /\ Arrays(n, ev, j + 1, [o \in DOMAIN after |-> e.shows[o].items])
RECURSIVE Refs(_, _, _)
Refs(ev, j, st) ==
  IF j > Len(ev) THEN TRUE
  ELSE LET after == DoRef(st, ev[j])
       IN /\ ev[j].vars = after.vars
          /\ \A r \in DOMAIN after.refs : ev[j].reads[r] = after.vars[after.refs[r]]
          /\ Refs(ev, j + 1, after)
OK(t) == IF t.k = "array" THEN Arrays(t.n, t.ev, 1, [o \in 1..t.objs |-> <<>>])
         ELSE Refs(t.ev, 1, [refs |-> t.refs, vars |-> t.vars])
VARIABLES tid, l
Init == tid = 0 /\ l \in 1..64
Next == tid = 0 /\ \E t \in DOMAIN Traces : t % 64 = l - 1 /\ tid' = t /\ UNCHANGED l
Conform == tid = 0 \/ OK(Traces[tid])
=============================================================================
