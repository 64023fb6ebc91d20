---------------------------- MODULE BoundedModel ----------------------------
(* All histories of two arrays up to a length: an array holds what its own history says, whatever happens to the other. *)
EXTENDS Bounded
CONSTANTS Caps, MaxOps, Values
VARIABLES n, objs, hist, last
vars == <<n, objs, hist, last>>
Ops == [op : {"push"}, d : 1..2, s : {1}, v : Values, i : {0}] \cup [op : {"clear"}, d : 1..2, s : {1}, v : {0}, i : {0}]
       \cup [op : {"resize"}, d : 1..2, s : {1}, v : 0..3, i : {0}] \cup [op : {"put"}, d : {1}, s : {1}, v : {1}, i : 1..2]
       \cup [op : {"copy", "swap"}, d : {1}, s : {2}, v : {0}, i : {0}]
Init == n \in Caps /\ objs = <<<<>>, <<>>>> /\ hist = <<<<>>, <<>>>> /\ last = <<<<>>, <<>>>>
Step(e) ==
  /\ objs' = Do(n, objs, e) /\ last' = objs
  /\ hist' = CASE e.op = "copy" -> [hist EXCEPT ![e.d] = hist[e.s]]
               [] e.op = "swap" -> [hist EXCEPT ![e.d] = hist[e.s], ![e.s] = hist[e.d]]
               [] OTHER -> [hist EXCEPT ![e.d] = Append(hist[e.d], e)]
Next == /\ Len(hist[1]) + Len(hist[2]) < MaxOps
        /\ \E e \in Ops : Step(e)
        /\ UNCHANGED n
(* copies share history, so histories are bounded by their sum *)
Own == \A o \in 1..2 : objs[o] = Contents(n, hist[o])
Within == \A o \in 1..2 : Len(objs[o]) <= n
=============================================================================
