-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* Text scanning (scan_text).  A scanner is fed chunks of one contiguous   *)
(* text and consumes as much as fits into a number of columns.             *)
(*                                                                          *)
(* Scanner state: u    UTF-8 decoder (a character may be cut by a chunk)    *)
(*                open a cluster is open and may be continued               *)
(*                g    segmentation machine behind the open cluster         *)
(*                w    measure of the open cluster                          *)
(*                rep  columns already reported for it                      *)
(* Offsets count bytes from the begin of the chunk; a character begun in    *)
(* the chunk before has a negative offset.                                   *)
(* Events: <<"A", from, to, columns>> run of ASCII, <<"C", from, to,        *)
(* columns>> cluster, <<"I", 0, 0, 1>> malformed piece.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Cls(_)          \* attributes of a code point: those of Grapheme.tla and of Width.tla
U == INSTANCE Utf
G == INSTANCE Grapheme
W == INSTANCE Width

IsC0(b) == b < 32
IsC1(b) == b \in 128..159
IsText(b) == b \in 32..127             \* one column each, consumed as runs

Fresh == [u |-> U!Boundary, open |-> FALSE, g |-> [a |-> "", ri |-> 0, cj |-> 0, ep |-> 0], w |-> W!Start, rep |-> 0]
Close(st) == [Fresh EXCEPT !.u = st.u]
Pending(st) == IF st.u.need = 0 THEN 0 ELSE st.u.have

(* ---- characters beyond ASCII --------------------------------------------- *)
(* x: st, i next byte, cnt columns, here: columns of the open cluster counted by this call,  *)
(*    os where the open cluster starts, re end of the result, ev, stop                        *)
Flush(x, to) == IF to > x.os THEN [x EXCEPT !.ev = Append(@, << "C", x.os, to, x.st.rep >>), !.os = to] ELSE [x EXCEPT !.os = to]

(* a control or ASCII byte ends the run; a character it interrupts is malformed *)
AtPlain(x, m) ==
  LET y == Flush(x, x.i - Pending(x.st))
      cut == x.st.u.need # 0
      fits == x.cnt < m
      at == IF cut /\ ~fits THEN x.i - Pending(x.st) ELSE x.i
  IN [y EXCEPT !.st = Fresh, !.i = at, !.re = at, !.stop = TRUE,
               !.cnt = IF cut /\ fits THEN @ + 1 ELSE @,
               !.ev = IF cut /\ fits THEN Append(@, << "I", 0, 0, 1 >>) ELSE @,
               !.os = at]

AtInvalid(x, u) ==       \* x.i already behind the byte; u the decoder behind it
  LET p == Pending([u |-> u]) IN
  [x EXCEPT !.st = [Fresh EXCEPT !.u = u], !.cnt = @ + 1, !.here = 0, !.ev = Append(@, << "I", 0, 0, 1 >>),
            !.os = x.i - p, !.re = x.i - p]

AtCharacter(x, c, from, m) ==      \* x.i behind the character, which starts at `from`
  LET k == Cls(c)
      st == x.st
  IN IF ~st.open \/ G!Break(st.g, k)
     THEN LET w == W!Push(W!Start, k)
              y == Flush(x, from)
          IN IF x.cnt + W!Columns(w) > m
             THEN [y EXCEPT !.st = Fresh, !.i = from, !.stop = TRUE]
             ELSE [y EXCEPT !.st = [u |-> U!Boundary, open |-> TRUE, w |-> w, rep |-> W!Columns(w),
                                    g |-> IF st.open THEN G!Step(st.g, k) ELSE G!Begin(k)],
                            !.cnt = @ + W!Columns(w), !.here = W!Columns(w), !.re = x.i]
     ELSE LET w == W!Push(st.w, k)
              n == W!Columns(w)
              d == n - st.rep
              back == IF -d < x.here THEN -d ELSE x.here          \* narrowing gives back what this call counted
              st2 == [st EXCEPT !.u = U!Boundary, !.g = G!Step(st.g, k), !.w = w, !.rep = n]
          IN IF d > 0 /\ x.cnt + d > m
             THEN [x EXCEPT !.st = Fresh, !.i = x.os, !.re = x.os, !.cnt = @ - x.here, !.stop = TRUE]
             ELSE IF d >= 0 THEN [x EXCEPT !.st = st2, !.cnt = @ + d, !.here = @ + d, !.re = x.i]
             ELSE [x EXCEPT !.st = st2, !.cnt = @ - back, !.here = @ - back, !.re = x.i]

RECURSIVE Run(_, _, _)
Run(x, t, m) ==
  IF x.stop THEN x
  ELSE IF x.i = Len(t) THEN Flush(x, x.i - Pending(x.st))
  ELSE LET b == t[x.i + 1] IN
    IF b < 128 \/ (x.st.u.need = 0 /\ IsC1(b)) THEN AtPlain(x, m)
    ELSE LET r == U!StreamStep(x.st.u, b)
             before == x.i - Pending(x.st)                 \* start of the character the byte belongs to
             y == [x EXCEPT !.i = @ + 1, !.st.u = r.st]
         IN IF r.res = U!Inc THEN Run(y, t, m)
            ELSE IF r.res = U!Inv
            THEN LET p == Pending([u |-> r.st])
                     z == Flush([x EXCEPT !.i = @ + 1], before)
                 IN IF x.cnt >= m THEN [z EXCEPT !.st = Fresh, !.i = before, !.stop = TRUE]
                    ELSE Run(AtInvalid(z, r.st), t, m)
            ELSE Run(AtCharacter(y, r.res, before, m), t, m)

Complex(st, t, from, m) ==
  LET s == from - Pending(st)
      x == Run([st |-> st, i |-> from, cnt |-> 0, here |-> 0, os |-> s, re |-> s, ev |-> <<>>, stop |-> FALSE], t, m)
  IN [st |-> x.st, cnt |-> x.cnt, start |-> s, end |-> x.re, next |-> x.i, ev |-> x.ev]

(* ---- ASCII ----------------------------------------------------------------- *)
RECURSIVE AsciiEnd(_, _, _)
AsciiEnd(t, at, lim) == IF at < lim /\ at < Len(t) /\ IsText(t[at + 1]) THEN AsciiEnd(t, at + 1, lim) ELSE at

AfterAscii(st, b) == [u |-> st.u, open |-> TRUE, g |-> G!Begin(Cls(b)), w |-> W!Push(W!Start, Cls(b)), rep |-> 1]

(* ---- one call ---------------------------------------------------------------- *)
(* y: st, cnt, start, end, next, ev, at (where the remaining text starts), ascii: which scanner is next *)
RECURSIVE Alternate(_, _, _)
Alternate(y, t, m) ==
  IF y.cnt >= m \/ y.next = Len(t) THEN y
  ELSE IF y.ascii THEN
    LET e == AsciiEnd(t, y.at, y.at + m - y.cnt) IN
    IF e = y.at THEN [y EXCEPT !.st = Close(@)]
    ELSE Alternate([y EXCEPT !.st = AfterAscii(@, t[e]), !.cnt = @ + (e - y.at), !.end = e, !.next = e, !.at = e,
                             !.ascii = FALSE, !.ev = Append(@, << "A", y.at, e, e - y.at >>)], t, m)
  ELSE
    LET r == Complex(y.st, t, y.at, m - y.cnt)
        z == [y EXCEPT !.st = r.st, !.cnt = @ + r.cnt, !.end = r.end, !.next = r.next, !.at = r.end, !.ascii = TRUE,
                       !.ev = @ \o r.ev]
    IN IF r.end = r.start THEN z ELSE Alternate(z, t, m)

Call(st, t, m) ==
  LET resume == st.u.need # 0
      r == IF resume THEN Complex(st, t, 0, m) ELSE [st |-> st, cnt |-> 0, start |-> 0, end |-> 0, next |-> 0, ev |-> <<>>]
      y == [st |-> r.st, cnt |-> r.cnt, start |-> r.start, end |-> r.end, next |-> r.next, ev |-> r.ev, at |-> r.end,
            ascii |-> IF r.end < 0 THEN FALSE ELSE r.end < Len(t) /\ t[r.end + 1] < 128]
  IN IF r.end = Len(t) THEN y
     ELSE IF r.end >= 0 THEN Alternate(y, t, m)
     ELSE IF r.cnt >= m \/ r.next = Len(t) THEN y
     \* what begins in the chunk before did not fit behind what is open: once more, as a text of its own
     ELSE Alternate([y EXCEPT !.st = [Fresh EXCEPT !.u = st.u], !.at = 0], t, m)
=============================================================================
