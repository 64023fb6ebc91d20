------------------------------ MODULE ScanModel ------------------------------
(* Laws of the scanner on all texts of up to MaxPieces pieces, all cuts and all limits. *)
EXTENDS Scan, ScanClasses, TLC, FiniteSets
CONSTANTS MaxPieces, Limits
Pieces == JsonDeserialize(IOEnv.PIECES)
Big == 1000
VARIABLES n, t
Init == n = 0 /\ t = <<>>
Next == n < MaxPieces /\ n' = n + 1 /\ \E i \in DOMAIN Pieces : t' = t \o Pieces[i]

Rest(from) == SubSeq(t, from + 1, Len(t))
One(m) == Call(Fresh, t, m)
(* the scanner never takes an ASCII byte into a character *)
RECURSIVE Text(_)
Text(s) == LET A == { i \in DOMAIN s : s[i] < 128 } IN
           IF A = {} THEN U!StreamText(s)
           ELSE LET i == CHOOSE j \in A : \A k \in A : j <= k IN
                U!StreamText(SubSeq(s, 1, i - 1)) \o << s[i] >> \o Text(SubSeq(s, i + 1, Len(s)))
After(s) == LET A == { i \in DOMAIN s : s[i] < 128 } IN
            IF A = {} THEN U!AfterStream(U!Boundary, s)
            ELSE LET i == CHOOSE j \in A : \A k \in A : j >= k IN U!AfterStream(U!Boundary, SubSeq(s, i + 1, Len(s)))
Classes(cps) == [i \in DOMAIN cps |-> Cls(cps[i])]
(* the last unfinished character does not belong to the text scanned *)
Whole(s) == LET p == After(s) IN SubSeq(s, 1, Len(s) - (IF p.need = 0 THEN 0 ELSE p.have))
Invalids(s) == Len(SelectSeq(U!RunStream(U!Boundary, s), LAMBDA r : r = U!Inv))
WellFormed(s) == Invalids(s) = 0 /\ U!Encode8All(Text(Whole(s))) = Whole(s)
HasControl(s) == \E i \in DOMAIN s : \/ IsC0(s[i])
                                    \/ (IsC1(s[i]) /\ After(SubSeq(s, 1, i - 1)).need = 0)
HasCp(s, c) == LET x == Text(s) IN \E i \in DOMAIN x : x[i] = c
Vs15 == HasCp(t, 65038)

RECURSIVE Widths(_, _, _)
Widths(cls, lens, at) == IF lens = <<>> THEN <<>>
                         ELSE << W!ClusterWidth(SubSeq(cls, at, at + Head(lens) - 1)) >> \o Widths(cls, Tail(lens), at + Head(lens))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
TextWidth(s) == LET c == Classes(Text(s)) IN Sum(Widths(c, G!ClusterLens(c, 1), 1))

(* C10 *)
Limit == \A m \in Limits : One(m).cnt <= m
Range == \A m \in Limits : LET r == One(m) IN r.start = 0 /\ r.end >= 0 /\ r.end = r.next - Pending(r.st)
(* what stands at the place where a scan stopped does not fit *)
FirstWidths(s) == LET c == Classes(Text(s))
                      k == Head(G!ClusterLens(c, 1))
                  IN { W!ClusterWidth(SubSeq(c, 1, j)) : j \in 1..k }
Stop == \A m \in Limits :
  LET r == One(m)
      b == t[r.next + 1]
  IN \/ r.next = Len(t)
     \/ r.cnt = m
     \/ IsC0(b) \/ IsC1(b)
     \/ \E w \in FirstWidths(Rest(r.next)) : r.cnt + w > m
(* without a limit the scan stops at the first control only *)
StopsAtControl ==
  LET r == One(Big)
      C == { i \in 0..(Len(t) - 1) : \/ IsC0(t[i + 1])
                                      \/ (IsC1(t[i + 1]) /\ After(SubSeq(t, 1, i)).need = 0) }
  IN r.next = IF C = {} THEN Len(t) ELSE CHOOSE i \in C : \A j \in C : i <= j

(* C11 *)
TotalWidth == ~HasControl(t) /\ Whole(t) = t /\ WellFormed(t) => One(Big).cnt = TextWidth(t)
Cut == \A k \in 0..Len(t) :
  LET a == Call(Fresh, SubSeq(t, 1, k), Big)
      b == Call(a.st, Rest(k), Big)
      o == One(Big)
  IN a.next = k => /\ b.next + k = o.next /\ b.end + k = o.end
                   /\ (~Vs15 => a.cnt + b.cnt = o.cnt)
Resume == \A m \in Limits :
  LET a == One(m)
      b == Call(a.st, Rest(a.next), Big)
      o == One(Big)
  IN /\ a.next + b.next = o.next
     /\ (~Vs15 => a.cnt + b.cnt = o.cnt)
(* what was put back is scanned like a text of its own *)
PutBack == \A m \in Limits :
  LET a == One(m) IN
  a.cnt < m /\ a.next < Len(t) => a.st = Fresh
(* cut into chunks and limited *)
Inside(at) == LET c == Classes(Text(Whole(t)))
                  k == Len(Text(SubSeq(t, 1, at)))
              IN k > 0 /\ k < Len(c) /\ ~G!Boundary(c, k)
CutResume == \A k \in 0..Len(t), m \in Limits :
  LET a == Call(Fresh, SubSeq(t, 1, k), Big)
      b == Call(a.st, Rest(k), m)
      d == Call(b.st, Rest(k + b.next), Big)
      o == One(Big)
  IN a.next = k => \/ (k + b.next + d.next = o.next /\ (~Vs15 => a.cnt + b.cnt + d.cnt = o.cnt))
                   \/ b.st.open = FALSE /\ Inside(k + b.next)
(* C12 *)
Joined(ev, i) == i > 1 /\ ev[i][1] = "C" /\ ev[i - 1][1] = "A" /\ ev[i][2] = ev[i - 1][3] /\
                 LET c == Classes(Text(SubSeq(t, 1, ev[i][3]))) IN ~G!Boundary(c, Len(Text(SubSeq(t, 1, ev[i][2]))))
RECURSIVE Columns(_, _)
Columns(ev, i) == IF i > Len(ev) THEN 0 ELSE ev[i][4] - (IF Joined(ev, i) THEN 1 ELSE 0) + Columns(ev, i + 1)
(* runs and clusters follow each other; exactly the malformed pieces lie between them *)
RECURSIVE Tiles(_, _, _, _, _)
Tiles(ev, i, at, bad, end) ==
  IF i > Len(ev) THEN at <= end /\ Invalids(SubSeq(t, at + 1, end)) + (IF U!AfterStream(U!Boundary, SubSeq(t, at + 1, end)).need # 0 THEN 1 ELSE 0) = bad
  ELSE IF ev[i][1] = "I" THEN Tiles(ev, i + 1, at, bad + 1, end)
  ELSE /\ ev[i][2] >= at /\ ev[i][3] > ev[i][2]
       /\ LET gap == SubSeq(t, at + 1, ev[i][2]) IN
          Invalids(gap) + (IF U!AfterStream(U!Boundary, gap).need # 0 THEN 1 ELSE 0) = bad
       /\ LET s == SubSeq(t, ev[i][2] + 1, ev[i][3]) IN
          /\ Invalids(s) = 0 /\ Whole(s) = s
          /\ ev[i][1] = "A" => \A j \in DOMAIN s : IsText(s[j])
          /\ ev[i][1] = "C" => /\ \A j \in DOMAIN s : s[j] >= 128
                               /\ LET c == Classes(Text(s)) IN
                                  /\ Len(G!ClusterLens(c, 1)) = 1
                                  /\ ~Joined(ev, i) => ev[i][4] = W!ClusterWidth(c)
                                  /\ Joined(ev, i) => ev[i][4] = W!ClusterWidth(<< Cls(t[ev[i][2]]) >> \o c)
       /\ Tiles(ev, i + 1, ev[i][3], 0, end)
Events == \A m \in Limits :
  LET r == One(m) IN Tiles(r.ev, 1, 0, 0, r.end) /\ Columns(r.ev, 1) = r.cnt
=============================================================================
