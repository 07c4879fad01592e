---------------------------- MODULE CursorCheck ----------------------------
(* Recorded runs of readers. A case: toks, the tokens of the document, and *)
(* rep, what was called: [op, res, parent, ns], where parent is <<>> or    *)
(* the identity reported for the reader's element, and ns the bindings     *)
(* <<prefix, <<>> or <<uri>>>> reported afterwards. The first call is      *)
(* "new".                                                                  *)
EXTENDS Cursor

VARIABLES case, pos, cur, bad
vars == <<case, pos, cur, bad>>
C == Cases[case]
Init == /\ case \in 1..Len(Cases) /\ pos = 1 /\ bad = FALSE
        /\ cur = Start(Cases[case].toks)

Reports(c, r) ==
    /\ \A i \in 1..Len(r.ns) : r.ns[i][2] = Binding(c.levels, r.ns[i][1])
    /\ r.parent # <<>> =>
          /\ Assert(Len(c.levels) = Here(c).at, "harness asks for the parent out of place")
          /\ LET l == c.levels[Len(c.levels)] IN r.parent = Identity(c.levels, l.p, l.n, TRUE)
OneCall == /\ pos <= Len(C.rep) /\ ~bad
        /\ LET r == C.rep[pos]
               x == IF r.op = "new" THEN With(cur, IF cur.over THEN <<"err">> ELSE <<"ok">>)
                    ELSE IF Legal(cur, r.op) THEN Call(cur, r.op) ELSE Assert(FALSE, <<"harness makes an illegal call", case, r.op>>)
           IN /\ cur' = x.c
              /\ bad' = ~(r.res = x.res /\ (x.c.over \/ Reports(x.c, r)))
              /\ pos' = pos + 1
        /\ UNCHANGED case
Next == OneCall
Spec == Init /\ [][Next]_vars

Conforms == bad => PrintT(<<"MISMATCH", case, pos - 1>>)
Stacked == Ordered(cur)
Within == Inside(cur)
=============================================================================
