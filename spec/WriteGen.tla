------------------------------ MODULE WriteGen ------------------------------
(* Every output the specification allows for a value: a case is [ty, val]. *)
(* Writer and reader run together: each tag that may be written next is    *)
(* handed to the reader at once. TLC shows for all of them that writing    *)
(* can always go on, that names mean what was intended, and that reading   *)
(* gives the value again. The outputs are printed, to be read by the real  *)
(* code as well.                                                           *)
EXTENDS Reader, Writer

VARIABLES case, scope, left, out, st
vars == <<case, scope, left, out, st>>
C == Cases[case]

Wanted(c) == Joined(Intended(c.ty, c.val, None))
Init == /\ case \in 1..Len(Cases)
        /\ scope = <<>> /\ out = <<>>
        /\ left = Wanted(Cases[case])
        /\ st = Init0(DefaultLimits, Cases[case].ty)

(* The ways to write a start tag: a prefix and a level. *)
Own(ev) == IF ev.cx = <<>> THEN <<>> ELSE ev.cx[1].prefixes
RECURSIVE DeclareSome(_, _, _)
DeclareSome(level, own, S) ==
    IF own = <<>> THEN level
    ELSE LET d == Head(own) IN DeclareSome(IF d \in S THEN Declare(level, d[1], d[2]) ELSE level, Tail(own), S)
Levels(ev) == {DeclareSome(e, Own(ev), S) : e \in {EmptyLevel, Declare(EmptyLevel, "", ev.id.ns)}, S \in SUBSET Range(Own(ev))}
Tags(sc, ev) == {t \in {[p |-> p, level |-> l] : p \in {""} \cup Prefixes(sc) \cup {Own(ev)[i][1] : i \in 1..Len(Own(ev))}, l \in Levels(ev)} :
                    PlacementOk(sc, t.level, [p |-> t.p], ev)}
(* The prefixes an attribute can have. *)
AttrPrefixes(here, id) == IF id.ns = "" THEN {""} ELSE PrefixesFor(here, id.ns)
AttrChoices(here, attrs) == {f \in [1..Len(attrs) -> {""} \cup Prefixes(here)] : \A i \in 1..Len(attrs) : f[i] \in AttrPrefixes(here, attrs[i].id)}

Written(ev, t, f, empty) ==
    [k |-> "open", p |-> t.p, n |-> ev.id.n, empty |-> empty,
     items |-> Map(t.level.d, LAMBDA u : [k |-> "decl", p |-> "", v |-> u])
               \o Map(t.level.m, LAMBDA d : [k |-> "decl", p |-> d[1], v |-> d[2]])
               \o [i \in 1..Len(ev.attrs) |-> [k |-> "attr", p |-> f[i], n |-> ev.attrs[i].id.n, v |-> ev.attrs[i].v, bad |-> FALSE]]]

Emit(tok) == out' = Append(out, tok) /\ st' = Step(st, tok)
Begin == /\ left # <<>> /\ Head(left).k = "open"
         /\ LET ev == Head(left) IN
            \E t \in Tags(scope, ev) :
              LET here == Append(scope, [p |-> t.p, n |-> ev.id.n] @@ t.level) IN
              \E f \in AttrChoices(here, ev.attrs) :
                 \/ Emit(Written(ev, t, f, FALSE)) /\ left' = Tail(left) /\ scope' = here
                 \/ /\ Len(left) > 1 /\ left[2].k = "close"
                    /\ Emit(Written(ev, t, f, TRUE)) /\ left' = Tail(Tail(left)) /\ scope' = scope
         /\ UNCHANGED case
Text == /\ left # <<>> /\ Head(left).k = "text"
        /\ Emit([k |-> "text", v |-> Head(left).v, bad |-> FALSE])
        /\ left' = Tail(left) /\ UNCHANGED <<case, scope>>
Close == /\ left # <<>> /\ Head(left).k = "close"
         /\ LET l == scope[Len(scope)] IN Emit([k |-> "close", p |-> l.p, n |-> l.n])
         /\ left' = Tail(left) /\ scope' = SubSeq(scope, 1, Len(scope) - 1) /\ UNCHANGED case
Next == Begin \/ Text \/ Close
Spec == Init /\ [][Next]_vars

Out == left = <<>> => PrintT(<<"W", case, ToJson(out)>>)
(* Writing goes on to the end, unless an attribute has no prefix to use. *)
Possible == left # <<>> => ENABLED Next \/ Unbound(<<>>, Wanted(C))
(* What may be written means what was intended. *)
Named == left # <<>> /\ Head(left).k = "open" =>
            LET ev == Head(left) IN \A t \in Tags(scope, ev) : ElementId(Append(scope, t.level), t.p, ev.id.n) = Ok(ev.id)
(* Reading what was written gives the value. *)
Returns == LET end == Step(st, [k |-> "eof"]) IN
           left = <<>> => end.res = "ok" /\ end.val[1] = C.val
=============================================================================
