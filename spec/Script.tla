------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* Script runs (UAX #24): a text is a sequence of lists of scripts, the    *)
(* scripts a character is used with, its own script first.  A character    *)
(* that is only Common or Inherited constrains nothing.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Shared == {"Common", "Inherited"}
Range(s) == { s[i] : i \in DOMAIN s }
Index(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
(* sc: script, scx: listed script extensions or <<>> *)
List(sc, scx) ==
  IF scx = <<>> THEN << sc >>
  ELSE IF sc \in Range(scx) THEN [scx EXCEPT ![1] = sc, ![Index(scx, sc)] = scx[1]]
  ELSE IF sc \notin Shared THEN Append(scx, sc)
  ELSE scx
Constrains(l) == l[1] \notin Shared

(* ---- declarative ------------------------------------------------------------ *)
Constraints(t, a, b) == { i \in a..b : Constrains(t[i]) }
Permitted(t, a, b) == { s \in UNION { Range(t[i]) : i \in Constraints(t, a, b) } : \A i \in Constraints(t, a, b) : s \in Range(t[i]) }
Compatible(t, a, b) == Constraints(t, a, b) = {} \/ Permitted(t, a, b) # {}
RunEnd(t, a) == CHOOSE b \in a..Len(t) : Compatible(t, a, b) /\ (b = Len(t) \/ ~Compatible(t, a, b + 1))
RECURSIVE EndsFrom(_, _)
EndsFrom(t, a) == IF a > Len(t) THEN <<>> ELSE << RunEnd(t, a) >> \o EndsFrom(t, RunEnd(t, a) + 1)

(* ---- machine: the scripts still possible, the preferred one first ------------- *)
Free == << "Common" >>
(* next list within the current one; <<>> if they exclude each other *)
Merge(cur, l) ==
  IF ~Constrains(l) THEN cur
  ELSE IF ~Constrains(cur) THEN l
  ELSE LET rest == SelectSeq(Tail(cur), LAMBDA s : s \in Range(l)) IN
       IF cur[1] \in Range(l) THEN << cur[1] >> \o rest
       ELSE IF l[1] \in Range(rest) THEN << l[1] >> \o SelectSeq(rest, LAMBDA s : s # l[1])
       ELSE rest
RECURSIVE RunsFrom(_, _, _, _)
RunsFrom(t, i, cur, acc) ==       \* acc: runs << end, script >>
  IF i > Len(t) THEN (IF t = <<>> THEN acc ELSE Append(acc, << Len(t), cur[1] >>))
  ELSE LET m == Merge(cur, t[i]) IN
       IF m = <<>> THEN RunsFrom(t, i + 1, t[i], Append(acc, << i - 1, cur[1] >>))
       ELSE RunsFrom(t, i + 1, m, acc)
Runs(t) == RunsFrom(t, 1, Free, <<>>)
=============================================================================
