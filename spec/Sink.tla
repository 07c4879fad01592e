-------------------------------- MODULE Sink --------------------------------
(* Serializing into a sink that may fail: the protocol between the         *)
(* serializer and its output, and the check of recorded runs against it.   *)
(*                                                                         *)
(* A case is one recorded run: out, the output of an undisturbed run; log, *)
(* the writes [s, n, ok] in order (the text, how much of it the sink        *)
(* accepted, whether it reported  success); ok and kind, the result.        *)
EXTENDS Data, Integers

VARIABLES case, pos,
          out,       \* what the sink accepted
          phase,     \* "run", "failed" once a write failed, "done"
          bad        \* what was done that the protocol does not allow
vars == <<case, pos, out, phase, bad>>

Log == Cases[case].log
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Init == case \in 1..Len(Cases) /\ pos = 1 /\ out = "" /\ phase = "run" /\ bad = {}

(* The protocol: *)
CanWrite(text) == phase = "run" /\ Prefix(out \o text, Cases[case].out)
CanReturn(ok, kind) == IF phase = "failed" THEN ~ok /\ kind = "Format"
                       ELSE ok /\ out = Cases[case].out

Write == /\ pos <= Len(Log)
         /\ LET w == Log[pos] IN
            /\ bad' = bad \cup (IF CanWrite(w.s) THEN {}
                                ELSE IF phase = "run" THEN {"text"} ELSE {"write after failure"})
            /\ out' = out \o SubSeq(w.s, 1, w.n)
            /\ phase' = IF w.ok THEN phase ELSE "failed"
         /\ pos' = pos + 1
         /\ UNCHANGED case
Return == /\ pos = Len(Log) + 1
          /\ bad' = bad \cup IF CanReturn(Cases[case].ok, Cases[case].kind) THEN {} ELSE {"result"}
          /\ pos' = pos + 1 /\ phase' = "done"
          /\ UNCHANGED <<case, out>>
Next == Write \/ Return
Spec == Init /\ [][Next]_vars

(* What the sink holds is a prefix of the undisturbed output at any time,  *)
(* unless the writer left the protocol.                                    *)
Accepted == bad = {} => Prefix(out, Cases[case].out)
Conforms == phase = "done" => (bad = {} \/ PrintT(<<"MISMATCH", case, ToJson([bad |-> bad, accepted |-> out])>>))
=============================================================================
