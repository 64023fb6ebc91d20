------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Names of code points (Unicode core specification 4.8): explicit ones,   *)
(* rule NR1 (Hangul syllables) and rule NR2 (prefix plus number); texts of *)
(* enumeration values and of versions.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

HexDigit == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F" >>
RECURSIVE Hex(_)
Hex(n) == IF n < 16 THEN HexDigit[n + 1] ELSE Hex(n \div 16) \o HexDigit[(n % 16) + 1]

(* jamo: [l |-> 19 short names, v |-> 21, t |-> 28 (the first one empty)] *)
SBase == 44032
SLast == 55203
SyllableName(cp, jamo) ==
  LET s == cp - SBase IN
  "HANGUL SYLLABLE " \o jamo.l[s \div 588 + 1] \o jamo.v[(s % 588) \div 28 + 1] \o jamo.t[(s % 28) + 1]

RECURSIVE Idx(_, _, _, _)
Idx(rows, c, lo, hi) == IF lo >= hi THEN lo ELSE LET mid == (lo + hi + 1) \div 2 IN
                        IF rows[mid].lo <= c THEN Idx(rows, c, mid, hi) ELSE Idx(rows, c, lo, mid - 1)

(* runs: sorted [lo, names]; ranges: [lo, hi, prefix] of rule NR2 *)
Name(cp, runs, ranges, jamo) ==
  IF cp \in SBase..SLast THEN SyllableName(cp, jamo)
  ELSE IF \E i \in DOMAIN ranges : cp \in ranges[i].lo..ranges[i].hi
       THEN ranges[CHOOSE k \in DOMAIN ranges : cp \in ranges[k].lo..ranges[k].hi].prefix \o Hex(cp)
  ELSE LET r == runs[Idx(runs, cp, 1, Len(runs))]
       IN IF cp >= r.lo /\ cp < r.lo + Len(r.names) THEN r.names[cp - r.lo + 1] ELSE ""

(* every enumerator is written as its identifier, by stream and by format, padding applies to the text *)
Printed(t) == /\ t.value = t.member /\ t.ostream = t.member /\ t.format = t.member
              /\ t.padded = t.member /\ t.pad = 60

(* a value that no enumerator names is written as its number *)
PrintedNumber(t) == t.ostream = "(" \o ToString(t.number) \o ")"

(* ages: [major, minor, text, ident] *)
AgeOf(text, ages) == IF \E i \in DOMAIN ages : ages[i].text = text
                     THEN ages[CHOOSE i \in DOMAIN ages : ages[i].text = text].ident ELSE ""
Older(a, b) == a.major < b.major \/ (a.major = b.major /\ a.minor < b.minor)
AgesAscend(order, ages) ==
  LET At(n) == ages[CHOOSE i \in DOMAIN ages : ages[i].ident = n] IN
  /\ Len(order) = Len(ages) + 1 /\ order[1] = "Unassigned"
  /\ \A i \in 2..Len(order) : \E k \in DOMAIN ages : ages[k].ident = order[i]
  /\ \A i \in 2..(Len(order) - 1) : Older(At(order[i]), At(order[i + 1]))
=============================================================================
