------------------------------- MODULE Cursor -------------------------------
(* Segmenters, iterators and incremental states are values: an object is a text and a position in it.  What it shows
   and what a step answers depend on these two alone - not on which object the position was copied from, nor on what
   other objects did in between.

   A text is described by what a single uninterrupted run over it shows:
     cur[k]    what an object at position k shows (position 1: freshly constructed)
     res[k]    what the step from position k answers
     avail[k]  whether code points remain behind what position k shows
   The last position is left to itself. *)
EXTENDS Naturals, Sequences
New(t) == [t |-> t, k |-> 1]
End(texts, t) == [t |-> t, k |-> Len(texts[t].cur)]
Step(texts, o) == [o EXCEPT !.k = IF o.k < Len(texts[o.t].cur) THEN o.k + 1 ELSE o.k]
Shows(texts, o) == texts[o.t].cur[o.k]
Answer(texts, o) == texts[o.t].res[o.k]
Avail(texts, o) == texts[o.t].avail[o.k] = 1
(* "range": segmenters compare like input iterators with an end sentinel - those without further code points are equal;
   "position": iterators over one text compare by position. *)
Equal(how, texts, a, b) == \/ a = b
                           \/ how = "range" /\ ~Avail(texts, a) /\ ~Avail(texts, b)
(* One operation on the objects (a sequence; positions not yet used hold an object, too). *)
Do(texts, objs, e) ==
  CASE e.op = "new" -> [objs EXCEPT ![e.d] = New(e.t)]
    [] e.op = "end" -> [objs EXCEPT ![e.d] = End(texts, e.t)]
    [] e.op \in {"copy", "assign", "move"} -> [objs EXCEPT ![e.d] = objs[e.s]]
    [] e.op = "step" -> [objs EXCEPT ![e.d] = Step(texts, objs[e.d])]
    [] e.op = "post" -> [objs EXCEPT ![e.d] = Step(texts, objs[e.d]), ![e.s] = objs[e.d]]
    [] e.op = "swap" -> [objs EXCEPT ![e.d] = objs[e.s], ![e.s] = objs[e.d]]
    [] OTHER -> objs
=============================================================================
