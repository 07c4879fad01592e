------------------------------- MODULE Cursor -------------------------------
(* The pull interface: readers that hand out the nodes of one element.     *)
(*                                                                         *)
(* A document is a stream of nodes [k, level, p, n, v]:                    *)
(*   open (level: name and declarations), then attr (p, n, v) for each of  *)
(*   its attributes, then text (v), open ... and close; err where reading  *)
(*   fails. A reader stands at one open element and hands out the nodes up *)
(*   to its close. State:                                                  *)
(*   s        the stream          pos     the next node of it              *)
(*   levels   open elements       over    whether reading has failed       *)
(*   readers  innermost last: [at: number of open elements when it was     *)
(*            made, nested: made for a child element, first: <<>> or the   *)
(*            node it was given up front, have: <<>> or the node it        *)
(*            handed out just now]                                         *)
EXTENDS Reader

Node(k, level, p, n, v) == [k |-> k, level |-> level, p |-> p, n |-> n, v |-> v]
Plain(k, v) == Node(k, EmptyLevel, "", "", v)

(* run: <<>> or <<[v, bad]>>, the text since the last tag *)
TextNodes(run) == IF run = <<>> THEN <<>> ELSE IF run[1].bad THEN <<Plain("err", "")>> ELSE <<Plain("text", run[1].v)>>
More(run, v, bad) == IF run = <<>> THEN <<[v |-> v, bad |-> bad]>> ELSE <<[v |-> run[1].v \o v, bad |-> run[1].bad \/ bad]>>
AttrNodes(tok) == Map(Attrs(tok), LAMBDA a : Node("attr", EmptyLevel, a.p, a.n, a.v))
(* The stream after a failure does not matter. *)
RECURSIVE Stream(_, _, _)
Stream(toks, levels, run) ==
    IF toks = <<>> THEN TextNodes(run) \o <<Plain("err", "")>>
    ELSE LET tok == Head(toks) rest == Tail(toks) IN
    CASE tok.k = "open" ->
           LET r == StartTag([levels |-> levels, lim |-> DefaultLimits], tok) IN
           IF ~r.ok THEN TextNodes(run) \o <<Plain("err", "")>>
           ELSE TextNodes(run) \o <<Node("open", r.v[1], "", "", "")>> \o AttrNodes(tok) \o
                (IF ~tok.empty THEN Stream(rest, Append(levels, r.v[1]), <<>>)
                 ELSE <<Plain("close", "")>> \o (IF levels = <<>> THEN <<>> ELSE Stream(rest, levels, <<>>)))
      [] tok.k = "close" ->
           IF levels = <<>> \/ levels[Len(levels)].p # tok.p \/ levels[Len(levels)].n # tok.n THEN TextNodes(run) \o <<Plain("err", "")>>
           ELSE TextNodes(run) \o <<Plain("close", "")>> \o
                (IF Len(levels) = 1 THEN <<>> ELSE Stream(rest, SubSeq(levels, 1, Len(levels) - 1), <<>>))
      [] tok.k = "text" -> Stream(rest, levels, More(run, tok.v, tok.bad))
      [] tok.k = "cdata" -> Stream(rest, levels, More(run, tok.v, FALSE))
      [] tok.k = "comment" -> Stream(rest, levels, run)
      [] tok.k = "xmldecl" -> IF levels = <<>> THEN Stream(rest, levels, run) ELSE TextNodes(run) \o <<Plain("err", "")>>
      [] tok.k = "stop" -> TextNodes(run) \o <<Plain("err", "")>>
---------------------------------------------------------------------------
NewReader(at, nested, first) == [at |-> at, nested |-> nested, first |-> first, have |-> <<>>]
(* A reader of the root element, if the document starts with one. *)
Start(toks) ==
    LET s == Stream(toks, <<>>, <<>>) IN
    IF s[1].k # "open" THEN [s |-> s, pos |-> 1, levels |-> <<>>, over |-> TRUE, readers |-> <<>>]
    ELSE [s |-> s, pos |-> 2, levels |-> <<s[1].level>>, over |-> FALSE, readers |-> <<NewReader(1, TRUE, <<>>)>>]

Here(c) == c.readers[Len(c.readers)]
SetHere(c, r) == [c EXCEPT !.readers[Len(c.readers)] = r]
IsKind(nodes, k) == nodes # <<>> /\ nodes[1].k = k
Pending(c) == IsKind(Here(c).have, "open")
Ended(c) == Len(c.levels) < Here(c).at

(* Calls that respect the interface: an element handed out is entered (or  *)
(* handed on) before anything else, and what was entered is read to its    *)
(* end or skipped.                                                         *)
Legal(c, k) ==
    /\ ~c.over
    /\ CASE k \in {"next", "ignore", "take"} -> ~Pending(c)
         [] k = "nest" -> Pending(c)
         [] k = "for" -> Here(c).have # <<>>
         [] k = "forvalue" -> IsKind(Here(c).have, "attr")
         [] k = "forextra" -> ~Pending(c) /\ ~IsKind(Here(c).first, "open")
         [] k = "end" -> /\ Len(c.readers) > 1 /\ ~Pending(c) /\ ~IsKind(Here(c).first, "open")
                         /\ Here(c).nested => Ended(c)

Identity(levels, p, n, element) ==
    LET r == IF element THEN ElementId(levels, p, n) ELSE AttributeId(levels, p, n)
    IN IF r.ok THEN <<r.v[1].ns, r.v[1].n>> ELSE <<>>
(* What a node says to whoever gets it. *)
Seen(levels, node) ==
    CASE node.k = "open" -> <<"open", Identity(levels, node.level.p, node.level.n, TRUE)>>
      [] node.k = "attr" -> <<"attr", Identity(levels, node.p, node.n, FALSE), node.v>>
      [] OTHER -> <<node.k, node.v>>

With(c, res) == [c |-> c, res |-> res]
Fault(c) == With([c EXCEPT !.over = TRUE], <<"err">>)
Forget(c) == SetHere(c, [Here(c) EXCEPT !.have = <<>>])
(* The next node: [c, node] with node = <<>> at the end. *)
Pull(c0) ==
    LET c == Forget(c0) r == Here(c) IN
    IF r.first # <<>> THEN [c |-> SetHere(c, [r EXCEPT !.first = <<>>]), node |-> r.first]
    ELSE IF Ended(c) THEN [c |-> c, node |-> <<>>]
    ELSE LET node == c.s[c.pos]
             on == [c EXCEPT !.pos = @ + 1]
         IN CASE node.k = "open" -> [c |-> [on EXCEPT !.levels = Append(@, node.level)], node |-> <<node>>]
              [] node.k = "close" -> [c |-> [on EXCEPT !.levels = SubSeq(@, 1, Len(@) - 1)], node |-> <<>>]
              [] OTHER -> [c |-> on, node |-> <<node>>]

NextCall(c) ==
    LET p == Pull(c) IN
    IF p.node = <<>> THEN With(p.c, <<"none">>)
    ELSE IF p.node[1].k = "err" THEN Fault(c)
    ELSE With(SetHere(p.c, [Here(p.c) EXCEPT !.have = p.node]), Seen(p.c.levels, p.node[1]))

RECURSIVE TakeCall(_)
TakeCall(c) ==
    LET p == Pull(c) IN
    IF p.node = <<>> THEN With(p.c, <<"none">>)
    ELSE CASE p.node[1].k \in {"text", "value"} -> With(p.c, <<"some", p.node[1].v>>)
           [] p.node[1].k = "attr" -> TakeCall(p.c)
           [] OTHER -> Fault(c)

(* To the end of the reader's element. *)
RECURSIVE SkipTo(_, _)
SkipTo(c, at) ==
    IF Len(c.levels) < at THEN With(c, <<"ok">>)
    ELSE LET node == c.s[c.pos] on == [c EXCEPT !.pos = @ + 1] IN
         CASE node.k = "open" -> SkipTo([on EXCEPT !.levels = Append(@, node.level)], at)
           [] node.k = "close" -> SkipTo([on EXCEPT !.levels = SubSeq(@, 1, Len(@) - 1)], at)
           [] node.k = "err" -> Fault(c)
           [] OTHER -> SkipTo(on, at)
IgnoreCall(c) == SkipTo(SetHere(c, [Here(c) EXCEPT !.have = <<>>, !.first = <<>>]), Here(c).at)

Push(c, r) == With([Forget(c) EXCEPT !.readers = Append(@, r)], <<"ok">>)
Call(c, k) ==
    CASE k = "next" -> NextCall(c)
      [] k = "take" -> TakeCall(c)
      [] k = "ignore" -> IgnoreCall(c)
      [] k = "nest" -> Push(c, NewReader(Len(c.levels), TRUE, <<>>))
      [] k = "for" -> Push(c, NewReader(Here(c).at, FALSE, Here(c).have))
      [] k = "forvalue" -> Push(c, NewReader(Here(c).at, FALSE, <<Plain("value", Here(c).have[1].v)>>))
      [] k = "forextra" -> Push(c, NewReader(Here(c).at, FALSE, <<Plain("text", "extra")>>))
      [] k = "end" -> With([c EXCEPT !.readers = SubSeq(@, 1, Len(@) - 1)], <<"ok">>)

CallKinds == {"next", "take", "ignore", "nest", "for", "forvalue", "forextra", "end"}
(* Readers stand one inside of the other. *)
Ordered(c) == \A i \in 1..Len(c.readers) : i > 1 => c.readers[i].at >= c.readers[i - 1].at
(* A reader that has not been read to its end stands in its own element; *)
(* an outer one has not ended while an inner one has something left.     *)
Inside(c) == ~c.over /\ c.readers # <<>> /\ ~Pending(c) /\ ~IsKind(Here(c).first, "open") /\ ~Ended(c) => Len(c.levels) = Here(c).at
=============================================================================
