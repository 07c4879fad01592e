----------------------------- MODULE CallCheck -----------------------------
(* Recorded runs of the low-level writer. A case is one run:               *)
(*   calls  the calls made                                                 *)
(*   rep    for each call [ok, wrote, tried, def, pre]: whether it         *)
(*          succeeded, whether it wrote anything; afterwards: calls tried  *)
(*          in this state <<mode, k, ok, wrote>>, the default namespace    *)
(*          reported, and the prefixes reported <<ns, <<>> or <<p>>>>      *)
(*   toks   the tokens of the complete output                              *)
EXTENDS Calls

VARIABLES case, pos, st
vars == <<case, pos, st>>
C == Cases[case]

(* levels: of the open elements; leaf: for each, whether its own declaration *)
(* is none of the writer's context; tp, off: position in the output          *)
Init == /\ case \in 1..Len(Cases) /\ pos = 1
        /\ st = [mode |-> "content", levels |-> <<>>, leaf |-> <<>>, tp |-> 1, off |-> 0, attr |-> 0, bad |-> {}]

Tok(s) == IF s.tp <= Len(C.toks) THEN C.toks[s.tp] ELSE [k |-> "end"]
Items(tok, k) == Pick(tok.items, LAMBDA i : i.k = k)
RECURSIVE LevelOf(_, _)
LevelOf(level, decls) == IF decls = <<>> THEN level ELSE LevelOf(Declare(level, Head(decls).p, Head(decls).v), Tail(decls))
NoDup(seq) == Cardinality(Range(seq)) = Len(seq)
Blame(s, ok, what) == IF ok THEN s ELSE [s EXCEPT !.bad = @ \cup {what}]
Pop(s) == [s EXCEPT !.levels = SubSeq(@, 1, Len(@) - 1), !.leaf = SubSeq(@, 1, Len(@) - 1)]

(* What a successful call has to have written. *)
Wrote(s, c) ==
    LET tok == Tok(s) IN
    CASE c.k = "start" ->
           IF tok.k # "open" THEN Blame(s, FALSE, "text")
           ELSE LET decls == Items(tok, "decl")
                    level == [LevelOf(EmptyLevel, decls) EXCEPT !.d = @] @@ [p |-> tok.p, n |-> tok.n]
                    here == Append(s.levels, level)
                    id == ElementId(here, tok.p, tok.n)
                    ids == Map(Items(tok, "attr"), LAMBDA a : AttributeId(here, a.p, a.n))
                    s1 == Blame(s, NoDup(Map(decls, LAMBDA d : d.p)) /\ NoDup(ids) /\ id.ok /\ \A i \in 1..Len(ids) : ids[i].ok, "wf")
                    s2 == Blame(s1, id = Ok(Id(c.ns, c.n)), "name")
                    s3 == Blame(s2, PlacementOk(s.levels, level, tok, [id |-> Id(c.ns, c.n), cx |-> c.cx]), "place")
                IN [s3 EXCEPT !.levels = here, !.leaf = Append(@, c.cx = <<>> /\ level.d # <<>>), !.attr = 0]
      [] c.k = "attr" ->
           LET as == Items(tok, "attr")
               i == s.attr + 1
               right == i <= Len(as) /\ as[i].v = c.v /\ AttributeId(s.levels, as[i].p, as[i].n) = Ok(Id(c.ns, c.n))
           IN Blame([s EXCEPT !.attr = i], right, "name")
      [] c.k = "open" -> Blame([s EXCEPT !.tp = @ + 1], ~tok.empty /\ Len(Items(tok, "attr")) = s.attr, "text")
      [] c.k = "empty" -> Pop(Blame([s EXCEPT !.tp = @ + 1], tok.empty /\ Len(Items(tok, "attr")) = s.attr, "text"))
      [] c.k = "str" ->
           IF c.v = "" THEN s
           ELSE IF tok.k # "text" THEN Blame(s, FALSE, "text")
           ELSE LET end == s.off + Len(c.v)
                    right == end <= Len(tok.v) /\ SubSeq(tok.v, s.off + 1, end) = c.v
                IN Blame(IF end >= Len(tok.v) THEN [s EXCEPT !.tp = @ + 1, !.off = 0] ELSE [s EXCEPT !.off = end], right, "text")
      [] c.k = "close" ->
           LET here == s.levels[Len(s.levels)]
               right == tok.k = "close" /\ tok.p = here.p /\ tok.n = here.n
           IN Pop(Blame([s EXCEPT !.tp = @ + 1], right, "text"))

(* An attribute needs a prefix in scope. *)
Acceptable(s, c) == c.k \in Legal(s.mode) /\ (c.k = "attr" => c.ns = "" \/ PrefixesFor(s.levels, c.ns) # {})

Reported(s, r) ==
    /\ (s.leaf # <<>> /\ s.leaf[Len(s.leaf)]) \/ r.def = Default(s.levels)
    /\ \A i \in 1..Len(r.pre) : LET ns == r.pre[i][1] p == r.pre[i][2] IN
          IF p = <<>> THEN PrefixesFor(s.levels, ns) = {} ELSE p[1] \in PrefixesFor(s.levels, ns)
(* Calls out of order fail and write nothing. *)
Tried(s, r) == \A i \in 1..Len(r.tried) : LET t == r.tried[i] IN
                  /\ Assert(t[1] = (IF t[1] = "value" THEN "value" ELSE s.mode) /\ t[2] \notin Legal(t[1]), "harness tries a legal call")
                  /\ ~t[3] /\ ~t[4]

StepCall(s, c, r) ==
    LET can == Acceptable(s, c)
        s1 == Blame(s, r.ok = can /\ (~r.ok => ~r.wrote), "order")
        s2 == IF r.ok /\ can THEN [Wrote(s1, c) EXCEPT !.mode = After(s.mode, c.k)] ELSE s1
        s3 == Blame(s2, Reported(s2, r), "report")
    IN Blame(s3, s3.bad # {} \/ Tried(s3, r), "order")

Over == pos > Len(C.calls)
Step == /\ ~Over
        /\ st' = StepCall(st, C.calls[pos], C.rep[pos])
        /\ pos' = IF st'.bad # {} THEN Len(C.calls) + 1 ELSE pos + 1     \* the first fault says enough
        /\ UNCHANGED case
Next == Step
Spec == Init /\ [][Next]_vars

Conforms == Over => \/ st.bad = {} /\ st.tp = Len(C.toks) + 1
                    \/ PrintT(<<"MISMATCH", case, ToJson([aspects |-> IF st.bad = {} THEN {"text"} ELSE st.bad, token |-> st.tp])>>)
Depth == Len(st.levels) = Len(st.leaf)
=============================================================================
