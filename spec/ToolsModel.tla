------------------------------ MODULE ToolsModel ------------------------------
(* Argument lists and texts, all short ones. *)
EXTENDS Tools, TLC
CONSTANTS MaxArgs, MaxText
Words == { DashE, DashDash, <<>>, << 45 >>, << 45, 120 >>, << 97 >>, << 101 >> }
Bytes == {0, 9, 31, 32, 34, 92, 126, 127, 128, 255}
VARIABLES args, text
Init == args = <<>> /\ text = <<>>
Next == \/ text = <<>> /\ Len(args) < MaxArgs /\ \E w \in Words : args' = Append(args, w) /\ UNCHANGED text
        \/ args = <<>> /\ Len(text) < MaxText /\ \E b \in Bytes : text' = Append(text, b) /\ UNCHANGED args
Parse == LET o == Options(args, FALSE) IN
  /\ o.ok = ~Refused(args)
  /\ o.ok => o.esc = Escaping(args) /\ o.texts = Texts(args)
  \* every text can be given behind "--"
  /\ Options(<< DashDash >> \o args, FALSE) = [ok |-> TRUE, esc |-> FALSE, texts |-> args]
  /\ Options(<< DashE, DashDash >> \o args, FALSE) = [ok |-> TRUE, esc |-> TRUE, texts |-> args]
Printable == LET s == Shown(text, TRUE) IN \A i \in DOMAIN s : s[i] \in 32..126 /\ s[i] # 34
OneLine == LET s == Shown(text, FALSE) IN \A i \in DOMAIN s : s[i] >= 32
Verbatim == (\A i \in DOMAIN text : text[i] >= 32) => Shown(text, FALSE) = text
Homomorphic == \A k \in 0..Len(text) : \A e \in BOOLEAN :
  Shown(text, e) = Shown(SubSeq(text, 1, k), e) \o Shown(SubSeq(text, k + 1, Len(text)), e)
ASSUME \A n \in {0, 9, 10, 15, 16, 255, 256, 65535, 65536, 1114111} : ParseHex(HexNum(n), 0) = n
ASSUME \A b, d \in 0..255 : \A e \in BOOLEAN : b # d /\ b # 92 /\ d # 92 => Shown(<< b >>, e) # Shown(<< d >>, e)
=============================================================================
