------------------------------ MODULE ReadGen ------------------------------
(* All documents over an alphabet of tokens, as far as the reader goes: a  *)
(* case is [ty, lim, alphabet, max]. The reader machine is stepped with    *)
(* every token that can follow; nothing follows a failure. Each document   *)
(* is printed together with its outcome, to be replayed.                   *)
EXTENDS Reader

VARIABLES case, doc, st
vars == <<case, doc, st>>
C == Cases[case]
Eof == [k |-> "eof"]

Init == case \in 1..Len(Cases) /\ doc = <<>> /\ st = Init0(Cases[case].lim, Cases[case].ty)
Next == /\ Len(doc) < C.max /\ st.res = "run"
        /\ \E i \in 1..Len(C.alphabet) : doc' = Append(doc, i) /\ st' = Step(st, C.alphabet[i])
        /\ UNCHANGED case
Spec == Init /\ [][Next]_vars

End(s) == IF s.res = "run" THEN Step(s, Eof) ELSE s
Out == doc # <<>> =>
    LET e == End(st) IN
    PrintT(<<"R", case, ToJson(doc), IF st.res = "run" THEN (IF e.res = "ok" THEN "ok" ELSE "open") ELSE "fail",
             IF e.res = "ok" THEN ToJson(e.val[1]) ELSE "">>)

(* Facts about the machine itself. *)
InStep == st.res = "run" => Len(st.levels) = Len(st.frames)
Deep == Len(st.levels) <= IF C.lim.l = 0 THEN 1 ELSE C.lim.l
Finished == st.closed => st.levels = <<>> /\ st.buf = <<>> /\ st.val # <<>>
(* Reading succeeds only after the end of the root element. *)
OnlyWhole == End(st).res = "ok" => st.closed
(* A comment makes no difference to what is being read. *)
Silent == st.res = "run" => Step(st, [k |-> "comment"]) = [st EXCEPT !.begun = TRUE]
(* Once the root has ended, nothing but comments and white space follow. *)
Trailing == st.closed /\ st.res = "run" => \A i \in 1..Len(C.alphabet) :
            C.alphabet[i].k # "comment" /\ ~(C.alphabet[i].k = "text" /\ Between(st, C.alphabet[i])) => Step(st, C.alphabet[i]).res = "fail"
(* A text and the same text as a section are the same. *)
Section == st.res = "run" /\ st.levels # <<>> => Step(st, [k |-> "text", v |-> "x", bad |-> FALSE]) = Step(st, [k |-> "cdata", v |-> "x"])
=============================================================================
