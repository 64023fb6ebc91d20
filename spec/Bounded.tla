------------------------------ MODULE Bounded -------------------------------
(* Sequences of bounded capacity (fs_array) and output parameters (out).

   An array is what has been put into it, at most N elements.  Elements that appear because it is enlarged hold no
   particular value (Any).  What does not fit is refused, and refusing changes nothing. *)
EXTENDS Naturals, Sequences
Any == 0
Push(n, c, v) == IF Len(c) < n THEN Append(c, v) ELSE c
Resize(n, c, k) == IF k > n THEN c ELSE [i \in 1..k |-> IF i <= Len(c) THEN c[i] ELSE Any]
Put(c, i, v) == IF i \in DOMAIN c THEN [c EXCEPT ![i] = v] ELSE c
(* One event on one array; `v` is a value or a size, `i` a place. *)
Do1(n, c, e) ==
  CASE e.op = "push" -> Push(n, c, e.v)
    [] e.op = "clear" -> <<>>
    [] e.op = "resize" -> Resize(n, c, e.v)
    [] e.op = "put" -> Put(c, e.i, e.v)
    [] OTHER -> c
Answer(n, c, e) == IF e.op = "push" THEN Len(c) < n ELSE TRUE
(* On several: the arrays are values. *)
Do(n, objs, e) ==
  CASE e.op = "copy" -> [objs EXCEPT ![e.d] = objs[e.s]]
    [] e.op = "swap" -> [objs EXCEPT ![e.d] = objs[e.s], ![e.s] = objs[e.d]]
    [] OTHER -> [objs EXCEPT ![e.d] = Do1(n, objs[e.d], e)]
Looks(c, items) == Len(items) = Len(c) /\ \A i \in DOMAIN c : c[i] # Any => items[i] = c[i]

(* Output parameters refer to variables: `refs` says to which, `vars` what these hold. *)
DoRef(st, e) ==
  CASE e.op = "bind" -> [st EXCEPT !.refs[e.d] = e.s]
    [] e.op = "again" -> [st EXCEPT !.refs[e.d] = st.refs[e.s]]
    [] e.op = "assign" -> [st EXCEPT !.vars[st.refs[e.d]] = e.v]
    [] OTHER -> st

(* The same read off a history of one array: its size, and what was put last into a place that has existed since. *)
RECURSIVE Size(_, _)
Size(n, h) ==
  IF h = <<>> THEN 0
  ELSE LET e == h[Len(h)]
           k == Size(n, SubSeq(h, 1, Len(h) - 1))
       IN CASE e.op = "push" -> IF k < n THEN k + 1 ELSE k
            [] e.op = "clear" -> 0
            [] e.op = "resize" -> IF e.v <= n THEN e.v ELSE k
            [] OTHER -> k
Before(h, j) == SubSeq(h, 1, j - 1)
Upto(h, j) == SubSeq(h, 1, j)
Puts(n, h, i) == {j \in DOMAIN h : \/ h[j].op = "push" /\ Size(n, Before(h, j)) = i - 1 /\ i <= n
                                   \/ h[j].op = "put" /\ h[j].i = i /\ i <= Size(n, Before(h, j))}
Element(n, h, i) ==
  LET js == {j \in Puts(n, h, i) : \A k \in j..Len(h) : Size(n, Upto(h, k)) >= i}
  IN IF js = {} THEN Any ELSE h[CHOOSE j \in js : \A k \in js : k <= j].v
Contents(n, h) == [i \in 1..Size(n, h) |-> Element(n, h, i)]
=============================================================================
