----------------------------- MODULE WriteCheck -----------------------------
(* Recorded outputs of the serializer checked against the specification.   *)
(* Every case holds a type, a value, whether writing succeeded, and the    *)
(* tokens of the output. The output is walked token by token together with *)
(* the events the value calls for. Aspects that can fail:                  *)
(*   wf      nesting, prefixes bound, no attribute or declaration twice    *)
(*   name    an element or attribute has another identity than declared    *)
(*   value   elements, attributes or text missing, extra or out of order   *)
(*   place   namespace declarations or prefixes other than documented      *)
(*   refuse  writing failed without reason, or succeeded in spite of one   *)
(*   back    the model reads another value from the output                 *)
EXTENDS Reader, Writer

VARIABLES case, pos, st, events
vars == <<case, pos, st, events>>

Toks(i) == Cases[i].toks
\* Texts holding characters XML has no notation for.
Forbidden == Range(Constants.forbidden)
Refused(evs) == Unbound(<<>>, evs) \/ Texts(evs) \cap Forbidden # {}

Start(c, evs) ==
    LET ref == Refused(evs) IN
    [levels |-> <<>>, k |-> 1, roots |-> 0, off |-> FALSE,
     bad |-> IF c.ok = ref THEN {"refuse"} ELSE {}]

Init == /\ case \in 1..Len(Cases)
        /\ pos = 1
        /\ events = Joined(Intended(Cases[case].ty, Cases[case].val, None))
        /\ st = Start(Cases[case], events)

Expected(k) == IF k <= Len(events) THEN events[k] ELSE [k |-> "end"]

Ids(scope, attrs) == Map(attrs, LAMBDA a : AttributeId(scope, a.p, a.n))
NoDup(seq) == Cardinality(Range(seq)) = Len(seq)
OpenTag(s, tok) ==
    LET decls == Decls(tok)
        attrs == Attrs(tok)
        level == DeclareAll([p |-> tok.p, n |-> tok.n, d |-> <<>>, m |-> <<>>], decls, [a |-> 1000, l |-> 1000, d |-> 1000]).v[1]
        here == Append(s.levels, level)
        id == ElementId(here, tok.p, tok.n)
        ids == Ids(here, attrs)
        allBound == id.ok /\ \A i \in 1..Len(ids) : ids[i].ok
        ev == Expected(s.k)
        aligned == ~s.off /\ ev.k = "open"
        wf == /\ allBound
              /\ NoDup(Map(decls, LAMBDA d : d.p))
              /\ NoDup(ids)
              /\ \A i \in 1..Len(decls) : decls[i].p # "" => decls[i].v # ""
              /\ s.levels = <<>> => s.roots = 0
        name == aligned =>
                   /\ id.ok /\ id.v[1] = ev.id
                   /\ {ids[i] : i \in 1..Len(ids)} = {Ok(ev.attrs[i].id) : i \in 1..Len(ev.attrs)}
        value == aligned /\ Map(attrs, LAMBDA a : <<a.n, a.v>>) = Map(ev.attrs, LAMBDA a : <<a.id.n, a.v>>)
        place == aligned => PlacementOk(s.levels, level, tok, ev)
    IN [s EXCEPT !.levels = here,
                 !.roots = IF s.levels = <<>> THEN @ + 1 ELSE @,
                 !.k = @ + 1,
                 !.off = @ \/ ~aligned,
                 !.bad = @ \cup (IF wf THEN {} ELSE {"wf"}) \cup (IF name THEN {} ELSE {"name"})
                           \cup (IF value THEN {} ELSE {"value"}) \cup (IF place THEN {} ELSE {"place"})]

CloseTag(s, tok) ==
    LET nested == s.levels # <<>> /\ s.levels[Len(s.levels)].p = tok.p /\ s.levels[Len(s.levels)].n = tok.n
        aligned == ~s.off /\ Expected(s.k).k = "close"
    IN [s EXCEPT !.levels = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1),
                 !.k = @ + 1,
                 !.off = @ \/ ~aligned,
                 !.bad = @ \cup (IF nested THEN {} ELSE {"wf"}) \cup (IF aligned THEN {} ELSE {"value"})]

TextTok(s, v) ==
    LET aligned == ~s.off /\ Expected(s.k).k = "text"
    IN [s EXCEPT !.k = @ + 1,
                 !.off = @ \/ ~aligned,
                 !.bad = @ \cup (IF s.levels = <<>> THEN {"wf"} ELSE {})
                           \cup (IF aligned /\ Expected(s.k).v = v THEN {} ELSE {"value"})]

StepOut(s, tok) ==
    CASE tok.k = "open" -> IF tok.empty THEN CloseTag(OpenTag(s, tok), tok) ELSE OpenTag(s, tok)
      [] tok.k = "close" -> CloseTag(s, tok)
      [] tok.k = "text" -> TextTok(s, tok.v)
      [] OTHER -> [s EXCEPT !.bad = @ \cup {"wf"}]

AtEnd(s) == [s EXCEPT !.bad = @ \cup (IF s.levels = <<>> /\ s.roots = 1 THEN {} ELSE {"wf"})
                                 \cup (IF s.k = Len(events) + 1 THEN {} ELSE {"value"})]

Done_ == pos = Len(Toks(case)) + 2 \/ ~Cases[case].ok
Advance == /\ ~Done_
           /\ st' = IF pos <= Len(Toks(case)) THEN StepOut(st, Toks(case)[pos]) ELSE AtEnd(st)
           /\ pos' = pos + 1
           /\ UNCHANGED <<case, events>>
Stop == Done_ /\ UNCHANGED vars
Next == Advance \/ Stop
Spec == Init /\ [][Next]_vars

(* What the reader of the specification makes of the output. *)
ReadBack == Read(DefaultLimits, Cases[case].ty, Toks(case))
BackOk == LET c == Cases[case] IN
          (c.rt /\ c.ok /\ st.bad = {}) =>
             LET r == ReadBack IN r.res = "ok" /\ r.val[1] = c.val

Report(aspects) == PrintT(<<"MISMATCH", case, ToJson([aspects |-> aspects, pos |-> pos - 1, events |-> events])>>)
Conforms == Done_ => /\ (st.bad = {} \/ Report(st.bad))
                     /\ (BackOk \/ Report({"back"}))
=============================================================================
