----------------------------- MODULE ReadCheck -----------------------------
(* Recorded readings checked against the specification: every case holds a *)
(* type, limits, the tokens of a document and the outcome of the real      *)
(* reader. The reader is stepped over the tokens; at the end the outcomes  *)
(* have to agree.                                                          *)
EXTENDS Reader

VARIABLES case, pos, st
vars == <<case, pos, st>>

Toks(i) == Append(Cases[i].toks, [k |-> "eof"])

Init == /\ case \in 1..Len(Cases)
        /\ pos = 1
        /\ st = Init0(Cases[case].lim, Cases[case].ty)
Advance == /\ st.res = "run"
           /\ st' = Step(st, Toks(case)[pos])
           /\ pos' = pos + 1
           /\ UNCHANGED case
Stop == st.res # "run" /\ UNCHANGED vars
Next == Advance \/ Stop
Spec == Init /\ [][Next]_vars

Agree(c, s) == c.ok = (s.res = "ok") /\ (c.ok => c.val = s.val[1])
Conforms ==
    st.res # "run" =>
        LET c == Cases[case] IN
        \/ Agree(c, st)
        \/ PrintT(<<"MISMATCH", case, ToJson([expected |-> [ok |-> st.res = "ok", val |-> st.val], pos |-> pos - 1])>>)

(* One frame for each open element. *)
InStep == Len(st.levels) = Len(st.frames)
(* The machine never stands still before the end of the input. *)
Bounded == pos <= Len(Toks(case)) + 1
Closed == st.closed => st.levels = <<>>
=============================================================================
