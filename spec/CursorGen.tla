----------------------------- MODULE CursorGen -----------------------------
(* All programs of calls of length Constants.max over the documents in     *)
(* Cases (token sequences).                                                *)
EXTENDS Cursor

VARIABLES doc, cur, prog
vars == <<doc, cur, prog>>

Init == doc \in 1..Len(Cases) /\ cur = Start(Cases[doc]) /\ prog = <<>>
(* Handing on an extra text twice in a row, or ending a reader that did   *)
(* nothing, shows nothing new.                                             *)
Useful(k) == IF prog = <<>> THEN TRUE ELSE LET l == prog[Len(prog)] IN
                 /\ k \in {"end", "forextra"} => l # "forextra"
                 /\ (k = "end" /\ l = "end") => Len(cur.readers) > 2
Next == /\ Len(prog) < Constants.max
        /\ \E k \in CallKinds : /\ Legal(cur, k) /\ Useful(k)
                                /\ cur' = Call(cur, k).c
                                /\ prog' = Append(prog, k)
        /\ UNCHANGED doc
Spec == Init /\ [][Next]_vars

Whole == Len(prog) = Constants.max \/ cur.over \/ ~\E k \in CallKinds : Legal(cur, k) /\ Useful(k)
Out == Whole => PrintT(<<"P", doc, ToJson(prog)>>)
Stacked == Ordered(cur)
Within == Inside(cur)
=============================================================================
