----------------------------- MODULE EmojiModel -----------------------------
(* The online scanner: it reads ahead, remembers the last place where a token could end, and backs up to it. *)
EXTENDS Emoji, TLC
CONSTANTS MaxLen, Used
VARIABLES text,   \* what was read
          ahead,  \* read but not yet part of a token
          q, good, style,   \* automaton, length and style of the longest token so far
          runs, ended
vars == << text, ahead, q, good, style, runs, ended >>
Init == text = <<>> /\ ahead = <<>> /\ q = "start" /\ good = 0 /\ style = "Text" /\ runs = <<>> /\ ended = FALSE
Advance(pos, c) == LET n == Step(q, c) IN
                   /\ q' = n
                   /\ IF Accepts(n) # "no" THEN good' = pos /\ style' = Accepts(n) ELSE UNCHANGED << good, style >>
VARIABLE at       \* how much of ahead the automaton has seen
Read == /\ ~ended /\ q # "dead" /\ at = Len(ahead) /\ Len(text) < MaxLen
        /\ \E c \in Used : /\ text' = Append(text, c) /\ ahead' = Append(ahead, c) /\ at' = at + 1 /\ Advance(at + 1, c)
        /\ UNCHANGED << runs, ended >>
Again == /\ q # "dead" /\ at < Len(ahead) /\ at' = at + 1 /\ Advance(at + 1, ahead[at + 1])
         /\ UNCHANGED << text, ahead, runs, ended >>
Emit == /\ (q = "dead" \/ (ended /\ at = Len(ahead) /\ ahead # <<>>))
        /\ runs' = AddRun(runs, good, style) /\ ahead' = SubSeq(ahead, good + 1, Len(ahead))
        /\ q' = "start" /\ good' = 0 /\ style' = "Text" /\ at' = 0 /\ UNCHANGED << text, ended >>
End == ~ended /\ at = Len(ahead) /\ q # "dead" /\ ended' = TRUE /\ UNCHANGED << text, ahead, q, good, style, runs, at >>
Start == Init /\ at = 0
Next == Read \/ Again \/ Emit \/ End
Done == ended /\ ahead = <<>>
Agrees == Done => runs = Runs(text)
RECURSIVE Sum(_)
Sum(rs) == IF rs = <<>> THEN 0 ELSE Head(rs)[1] + Sum(Tail(rs))
Tiles == /\ Sum(runs) + Len(ahead) = Len(text)
         /\ \A i \in DOMAIN runs : runs[i][1] >= 1
         /\ \A i \in 1..(Len(runs) - 1) : runs[i][2] # runs[i + 1][2]
Progress == (q = "dead" \/ (ended /\ ahead # <<>> /\ at = Len(ahead))) => good >= 1     \* every token makes progress
=============================================================================
