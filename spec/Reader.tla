------------------------------ MODULE Reader ------------------------------
(* Reading a document: a pushdown machine over the tokens of the input.    *)
(*                                                                         *)
(* State of a reader:                                                      *)
(*   levels  open elements: [p, n, d, m] name as written and declarations  *)
(*   frames  what is being read from each open element (same length)       *)
(*   buf     <<>> or <<text>>: text collected since the last tag           *)
(*   res     "run", "ok" or "fail"; val is <<value>> once "ok"             *)
(*   lim     limits in force: [a, l, d] attributes, levels, declarations   *)
(*   closed  whether the root element has ended                            *)
(*   begun   whether anything was read                                     *)
(*                                                                         *)
(* Tokens (records with a field k):                                        *)
(*   open   p, n: name, items: sequence of [k "decl", p, v] and            *)
(*          [k "attr", p, n, v, bad], empty: whether self-closing          *)
(*   close  p, n                                                           *)
(*   text   v, bad   (bad: holds a malformed reference)                    *)
(*   cdata  v        comment      xmldecl                                  *)
(*   stop   anything that has to be refused (markup that cannot be parsed, *)
(*          processing instructions, document type declarations)           *)
(*   eof                                                                   *)
EXTENDS Types

DefaultLimits == [a |-> 64, l |-> 32, d |-> 32]
---------------------------------------------------------------------------
(* Accumulators: what has been found so far for a type.                    *)
(* [k, c]  k = "one"  at most one value                                    *)
(*         k = "vec"  any number of values                                 *)
(*         k = "inl"  the accumulators of the fields                       *)
RECURSIVE NewAcc(_)
NewAcc(ty) ==
    CASE ty.k = "opt" -> NewAcc(ty.c[1])
      [] ty.k = "vec" -> [k |-> "vec", c |-> <<>>]
      [] IsInline(ty) -> [k |-> "inl", c |-> Map(Def(ty.s).fields, LAMBDA f : NewAcc(f.ty))]
      [] OTHER -> [k |-> "one", c |-> <<>>]

RECURSIVE Done(_, _)
Done(ty, acc) ==
    CASE ty.k = "opt" -> LET r == Done(ty.c[1], acc) IN Ok(IF r.ok THEN VSome(r.v[1]) ELSE VNone)
      [] ty.k = "vec" -> Ok(VVec(acc.c))
      [] IsInline(ty) -> LET fs == Def(ty.s).fields
                             rs == [i \in 1..Len(fs) |-> Done(fs[i].ty, acc.c[i])]
                         IN IF \A i \in 1..Len(fs) : rs[i].ok
                            THEN Ok(V("i", "", [i \in 1..Len(fs) |-> rs[i].v[1]]))
                            ELSE Fail
      [] OTHER -> IF acc.c = <<>> THEN Fail ELSE Ok(acc.c[1])

(* Whether another matching element may be read. *)
RECURSIVE CanEnter(_, _, _)
CanEnter(ty, acc, id) ==
    CASE ty.k = "opt" -> CanEnter(ty.c[1], acc, id)
      [] ty.k = "vec" -> TRUE
      [] IsInline(ty) -> LET i == FirstField(Def(ty.s), id)
                         IN CanEnter(Def(ty.s).fields[i].ty, acc.c[i], id)
      [] OTHER -> acc.c = <<>>

(* Record what an element yielded: v is <<value>>, or <<>> for nothing. *)
RECURSIVE Put(_, _, _, _)
Put(ty, acc, id, v) ==
    CASE ty.k = "opt" -> Put(ty.c[1], acc, id, v)
      [] ty.k = "vec" -> LET r == Put(ty.c[1], NewAcc(ty.c[1]), id, v)
                             d == IF r.ok THEN Done(ty.c[1], r.v[1]) ELSE Fail
                         IN IF d.ok THEN Ok([acc EXCEPT !.c = Append(@, d.v[1])]) ELSE Fail
      [] ty.k = "box" -> LET r == Put(ty.c[1], NewAcc(ty.c[1]), id, v)
                             d == IF r.ok THEN Done(ty.c[1], r.v[1]) ELSE Fail
                         IN IF d.ok THEN Ok([acc EXCEPT !.c = <<d.v[1]>>]) ELSE Fail
      [] IsInline(ty) -> LET i == FirstField(Def(ty.s), id)
                             r == Put(Def(ty.s).fields[i].ty, acc.c[i], id, v)
                         IN IF r.ok THEN Ok([acc EXCEPT !.c[i] = r.v[1]]) ELSE Fail
      [] OTHER -> Ok([acc EXCEPT !.c = v])

(* Record a piece of text (attribute value or direct content). *)
RECURSIVE PutText(_, _, _)
PutText(ty, acc, text) ==
    CASE ty.k = "opt" -> PutText(ty.c[1], acc, text)
      [] ty.k = "box" -> LET r == PutText(ty.c[1], NewAcc(ty.c[1]), text)
                             d == IF r.ok THEN Done(ty.c[1], r.v[1]) ELSE Fail
                         IN IF acc.c = <<>> /\ d.ok THEN Ok([acc EXCEPT !.c = <<d.v[1]>>]) ELSE Fail
      [] OTHER -> LET r == TextValue(ty, text)
                  IN IF acc.c = <<>> /\ r.ok THEN Ok([acc EXCEPT !.c = <<r.v[1]>>]) ELSE Fail
---------------------------------------------------------------------------
(* Frames: [k, ty, wrap, acc, pos, val, fi, id]                            *)
(*   k    struct | tuple | unit | text | any | skip                        *)
(*   ty   the type being read                                              *)
(*   wrap forward variants around it, outermost first                      *)
(*   acc  accumulators of the fields                                       *)
(*   pos  tuple: next field; text: 1 once text was taken                   *)
(*   val  text: <<value>>; any: <<attributes, text, children>>             *)
(*   fi   field of the parent it belongs to; id: id of the element         *)
Frame(k, ty, wrap, acc, fi, id) ==
    [k |-> k, ty |-> ty, wrap |-> wrap, acc |-> acc, pos |-> 1, val |-> <<>>, fi |-> fi, id |-> id]
AnyTy == [k |-> "any", s |-> "", c |-> <<>>]
Skip(id) == Frame("skip", AnyTy, <<>>, <<>>, 0, id)
NoId == Id("", "")

FieldAccs(T) == Map(T.fields, LAMBDA f : NewAcc(f.ty))

(* The frame that reads an element with the given id as type ty. *)
RECURSIVE Enter(_, _, _, _, _)
Enter(ty, wrap, fi, id, fid) ==
    CASE ty.k = "sc" -> Ok([Frame("text", ty, wrap, <<>>, fi, id) EXCEPT !.val = IF ty.s = "Nothing" THEN <<VScalar("")>> ELSE <<>>])
      [] ty.k \in {"opt", "vec", "box"} -> Enter(ty.c[1], wrap, fi, id, fid)
      [] ty.k = "any" -> Ok([Frame("any", ty, wrap, <<>>, fi, id) EXCEPT !.val = << <<>>, <<>>, <<>> >>])
      [] ty.k = "ref" ->
           LET T == Def(ty.s) IN
           CASE T.k = "struct" -> Ok(Frame("struct", ty, wrap, FieldAccs(T), fi, id))
             [] T.k = "tuple" -> Ok(Frame("tuple", ty, wrap, FieldAccs(T), fi, id))
             [] T.k = "unit" -> Ok(Frame("unit", ty, wrap, <<>>, fi, id))
             [] T.k = "senum" -> Ok(Frame("text", ty, wrap, <<>>, fi, id))
             [] T.k = "fwd" -> IF Variants(T, id) = {} THEN Fail
                               ELSE LET v == T.variants[First(Variants(T, id))]
                                    IN Enter(v.ty, Append(wrap, v.id), fi, id, None)
             [] T.k = "inline" -> LET f == T.fields[FirstField(T, id)]
                                  IN Enter(f.ty, wrap, fi, id, <<FieldId(f)>>)

RECURSIVE Wrap(_, _)
Wrap(wrap, v) == IF wrap = <<>> THEN v ELSE V("f", Head(wrap), <<Wrap(Tail(wrap), v)>>)

(* What an element yields at its end: Ok(<<value>>), Ok(<<>>) or Fail. *)
VAny(id, val) == V("x", id.n, <<VScalar(id.ns),
                                IF val[2] = <<>> THEN VNone ELSE VSome(VScalar(val[2][1])),
                                VVec(val[1]), VVec(val[3])>>)
FieldValue(f, acc) ==
    LET d == Done(f.ty, acc) IN
    IF d.ok \/ ~Direct(f) THEN d
    ELSE LET r == PutText(f.ty, NewAcc(f.ty), "")   \* no content is empty content
         IN IF r.ok THEN Done(f.ty, r.v[1]) ELSE Fail
Finish(fr) ==
    CASE fr.k = "struct" \/ fr.k = "tuple" ->
           LET fs == Def(fr.ty.s).fields
               rs == [i \in 1..Len(fs) |-> FieldValue(fs[i], fr.acc[i])]
           IN IF \A i \in 1..Len(fs) : rs[i].ok
              THEN Ok(<<Wrap(fr.wrap, V("r", "", [i \in 1..Len(fs) |-> rs[i].v[1]]))>>)
              ELSE Fail
      [] fr.k = "unit" -> Ok(<<Wrap(fr.wrap, V("r", "", <<>>))>>)
      [] fr.k = "any" -> Ok(<<Wrap(fr.wrap, VAny(fr.id, fr.val))>>)
      [] fr.k = "text" ->
           IF fr.val # <<>> THEN Ok(<<Wrap(fr.wrap, fr.val[1])>>)
           ELSE IF fr.ty.k = "ref" THEN Fail
           ELSE IF fr.ty.s \in TextTypes THEN Ok(<<Wrap(fr.wrap, VScalar(Parse(fr.ty.s, "").v[1]))>>)
           ELSE Ok(<<>>)
      [] fr.k = "skip" -> Ok(<<>>)

(* A tuple struct takes the text of a field in text position when that field *)
(* is reached, at the latest at the end of the element.                      *)
TupleField(fr) == Def(fr.ty.s).fields[fr.pos]
AtField(fr) == fr.pos <= Len(Def(fr.ty.s).fields)
RECURSIVE EndTuple(_)
EndTuple(fr) ==
    IF fr.k # "tuple" \/ ~AtField(fr) THEN Ok(fr)
    ELSE LET f == TupleField(fr)
             e == IF f.ty.k = "sc" /\ f.ty.s \in TextTypes THEN PutText(f.ty, NewAcc(f.ty), "") ELSE Fail
         IN IF e.ok THEN EndTuple([fr EXCEPT !.acc[fr.pos] = e.v[1], !.pos = @ + 1]) ELSE Fail
---------------------------------------------------------------------------
(* Steps *)
Init0(lim, ty) == [levels |-> <<>>, frames |-> <<>>, buf |-> <<>>, res |-> "run", val |-> <<>>,
                   lim |-> lim, ty |-> ty, closed |-> FALSE, begun |-> FALSE]
Failed(st) == [st EXCEPT !.res = "fail", !.levels = <<>>, !.frames = <<>>, !.buf = <<>>]
Top(st) == st.frames[Len(st.frames)]
SetTop(st, fr) == [st EXCEPT !.frames[Len(st.frames)] = fr]

(* Text that is complete is handed to the element it stands in. *)
Flush(st) ==
    IF st.buf = <<>> THEN st
    ELSE LET text == st.buf[1]
             s0 == [st EXCEPT !.buf = <<>>]
             fr == Top(st)
         IN CASE fr.k = "struct" ->
                   LET at == Where(Def(fr.ty.s).fields, Direct)
                   IN IF at = {} THEN s0
                      ELSE LET i == First(at)
                               r == PutText(Def(fr.ty.s).fields[i].ty, fr.acc[i], text)
                           IN IF r.ok THEN SetTop(s0, [fr EXCEPT !.acc[i] = r.v[1]]) ELSE Failed(st)
              [] fr.k = "tuple" ->
                   IF ~AtField(fr) THEN s0
                   ELSE IF ~IsText(TupleField(fr).ty) THEN Failed(st)
                   ELSE LET r == PutText(TupleField(fr).ty, fr.acc[fr.pos], text)
                        IN IF r.ok THEN SetTop(s0, [fr EXCEPT !.acc[fr.pos] = r.v[1], !.pos = @ + 1])
                                   ELSE Failed(st)
              [] fr.k = "text" ->
                   IF fr.val # <<>> THEN s0
                   ELSE LET r == TextValue(fr.ty, text)
                        IN IF r.ok THEN SetTop(s0, [fr EXCEPT !.val = r.v]) ELSE Failed(st)
              [] fr.k = "any" -> SetTop(s0, [fr EXCEPT !.val[2] = IF @ = <<>> THEN <<text>> ELSE <<@[1] \o text>>])
              [] OTHER -> s0

(* The start tag of an element: its level. Fail if a limit is exceeded. *)
RECURSIVE DeclareAll(_, _, _)
DeclareAll(level, decls, lim) ==
    IF decls = <<>> THEN Ok(level)
    ELSE LET d == Head(decls) IN
         IF d.p # "" /\ Cardinality(DeclaredPrefixes(level)) >= lim.d THEN Fail
         ELSE DeclareAll(Declare(level, d.p, d.v), Tail(decls), lim)
Decls(tok) == Pick(tok.items, LAMBDA i : i.k = "decl")
Attrs(tok) == Pick(tok.items, LAMBDA i : i.k = "attr")
StartTag(st, tok) ==
    LET lim == st.lim
        level == DeclareAll([p |-> tok.p, n |-> tok.n, d |-> <<>>, m |-> <<>>], Decls(tok), lim)
    IN IF Len(st.levels) >= lim.l \/ Len(Attrs(tok)) > lim.a \/ \E i \in 1..Len(Attrs(tok)) : Attrs(tok)[i].bad
       THEN Fail ELSE level

(* The attributes of an element that is read as the given frame. *)
RECURSIVE StructAttrs(_, _, _)
StructAttrs(fr, scope, attrs) ==
    IF attrs = <<>> THEN Ok(fr)
    ELSE LET a == Head(attrs)
             id == AttributeId(scope, a.p, a.n)
             fs == Def(fr.ty.s).fields
             at == IF id.ok THEN Where(fs, LAMBDA f : f.mode = "attr" /\ FieldId(f) = id.v[1]) ELSE {}
         IN IF ~id.ok THEN Fail
            ELSE IF at = {} THEN StructAttrs(fr, scope, Tail(attrs))
            ELSE LET i == First(at)
                     r == PutText(fs[i].ty, fr.acc[i], a.v)
                 IN IF r.ok THEN StructAttrs([fr EXCEPT !.acc[i] = r.v[1]], scope, Tail(attrs)) ELSE Fail
AnyAttrs(fr, scope, attrs) ==
    LET ids == Map(attrs, LAMBDA a : AttributeId(scope, a.p, a.n)) IN
    IF \E i \in 1..Len(ids) : ~ids[i].ok THEN Fail
    ELSE Ok([fr EXCEPT !.val[1] = [i \in 1..Len(ids) |->
                V("a", ids[i].v[1].n, <<VScalar(ids[i].v[1].ns), VScalar(attrs[i].v)>>)]])
ReadAttrs(fr, scope, attrs) ==
    CASE fr.k = "struct" -> StructAttrs(fr, scope, attrs)
      [] fr.k = "any" -> AnyAttrs(fr, scope, attrs)
      [] fr.k = "tuple" /\ attrs # <<>> ->   \* only a field in text position passes over attributes
           IF ~AtField(fr) \/ IsText(TupleField(fr).ty) THEN Ok(fr) ELSE Fail
      [] OTHER -> Ok(fr)

(* The frame for a new element below the current one. *)
ElementMatch(f, id) == f.mode = "elem" /\ Matches(f.ty, id, <<FieldId(f)>>)
ChildFrame(st, scope, tok) ==
    LET id == ElementId(scope, tok.p, tok.n) IN
    IF st.frames = <<>> THEN
        IF id.ok /\ Matches(st.ty, id.v[1], None) THEN Enter(st.ty, <<>>, 0, id.v[1], None) ELSE Fail
    ELSE LET fr == Top(st) IN
    CASE fr.k = "struct" ->
           IF ~id.ok THEN Fail
           ELSE LET fs == Def(fr.ty.s).fields
                    at == Where(fs, LAMBDA f : ElementMatch(f, id.v[1]))
                IN IF at = {} THEN Ok(Skip(id.v[1]))
                   ELSE LET i == First(at)
                        IN IF CanEnter(fs[i].ty, fr.acc[i], id.v[1])
                           THEN Enter(fs[i].ty, <<>>, i, id.v[1], <<FieldId(fs[i])>>)
                           ELSE Fail
      [] fr.k = "tuple" ->
           IF ~AtField(fr) THEN Ok(Skip(NoId))
           ELSE LET f == TupleField(fr) IN
                IF ~id.ok \/ IsText(f.ty) \/ ~Matches(f.ty, id.v[1], None) THEN Fail
                ELSE Enter(f.ty, <<>>, fr.pos, id.v[1], None)
      [] fr.k = "any" -> IF id.ok THEN Enter(AnyTy, <<>>, 0, id.v[1], None) ELSE Fail
      [] fr.k = "text" -> IF fr.val = <<>> THEN Fail ELSE Ok(Skip(NoId))
      [] OTHER -> Ok(Skip(NoId))

(* What an ended element yielded goes to its parent. *)
Deliver(parent, child, v) ==
    CASE child.k = "skip" -> Ok(parent)
      [] parent.k = "struct" \/ parent.k = "tuple" ->
           LET f == Def(parent.ty.s).fields[child.fi]
               r == Put(f.ty, parent.acc[child.fi], child.id, v)
           IN IF r.ok THEN Ok([parent EXCEPT !.acc[child.fi] = r.v[1],
                                             !.pos = IF parent.k = "tuple" THEN @ + 1 ELSE @])
                      ELSE Fail
      [] parent.k = "any" -> Ok([parent EXCEPT !.val[3] = Append(@, v[1])])

EndElement(st0) ==
    LET st == Flush(st0) IN
    IF st.res # "run" THEN st
    ELSE LET e == EndTuple(Top(st))
             child == e.v[1]
             v == IF e.ok THEN Finish(child) ELSE Fail
             n == Len(st.frames)
             up == [st EXCEPT !.levels = SubSeq(@, 1, n - 1), !.frames = SubSeq(@, 1, n - 1)]
         IN IF ~v.ok THEN Failed(st)
            ELSE IF n = 1
                 THEN LET p == Put(st.ty, NewAcc(st.ty), child.id, v.v[1])
                          d == IF p.ok THEN Done(st.ty, p.v[1]) ELSE Fail
                      IN IF d.ok THEN [up EXCEPT !.closed = TRUE, !.val = d.v] ELSE Failed(st)
            ELSE LET d == Deliver(st.frames[n - 1], child, v.v[1])
                 IN IF d.ok THEN [up EXCEPT !.frames[n - 1] = d.v[1]] ELSE Failed(st)

OnOpen(st0, tok) ==
    LET st == IF st0.frames = <<>> THEN st0 ELSE Flush(st0)
        level == StartTag([st EXCEPT !.lim = IF st.levels = <<>> THEN DefaultLimits ELSE @], tok)
    IN IF st.res # "run" THEN st
       ELSE IF st.closed \/ ~level.ok THEN Failed(st)
       ELSE LET scope == Append(st.levels, level.v[1])
                fr == ChildFrame(st, scope, tok)
                full == IF fr.ok THEN ReadAttrs(fr.v[1], scope, Attrs(tok)) ELSE Fail
                next == [st EXCEPT !.levels = scope, !.frames = Append(@, full.v[1])]
            IN IF ~full.ok THEN Failed(st)
               ELSE IF tok.empty THEN EndElement(next) ELSE next

OnClose(st, tok) ==
    IF st.levels = <<>> THEN Failed(st)
    ELSE LET level == st.levels[Len(st.levels)]
         IN IF level.p = tok.p /\ level.n = tok.n THEN EndElement(st) ELSE Failed(st)

OnText(st, text) ==
    IF st.levels = <<>> THEN Failed(st)
    ELSE [st EXCEPT !.buf = IF @ = <<>> THEN <<text>> ELSE <<@[1] \o text>>]

(* White space outside of the root element is no text. *)
Between(st, tok) == st.levels = <<>> /\ \A i \in 1..Len(tok.v) : SubSeq(tok.v, i, i) \in {" ", "\t", "\n", "\r"}

Step(st0, tok) ==
    LET st == [st0 EXCEPT !.begun = TRUE] IN
    CASE tok.k = "open" -> OnOpen(st, tok)
      [] tok.k = "close" -> OnClose(st, tok)
      [] tok.k = "text" -> IF tok.bad THEN Failed(st) ELSE IF Between(st, tok) THEN st ELSE OnText(st, tok.v)
      [] tok.k = "cdata" -> OnText(st, tok.v)
      [] tok.k = "comment" -> st
      [] tok.k = "xmldecl" -> IF st0.begun THEN Failed(st) ELSE st
      [] tok.k = "stop" -> Failed(st)
      [] tok.k = "eof" -> IF st.closed THEN [st EXCEPT !.res = "ok"] ELSE Failed(st)

RECURSIVE Run(_, _)
Run(st, toks) == IF st.res # "run" \/ toks = <<>> THEN st ELSE Run(Step(st, Head(toks)), Tail(toks))
Read(lim, ty, toks) == Run(Init0(lim, ty), Append(toks, [k |-> "eof"]))
=============================================================================
