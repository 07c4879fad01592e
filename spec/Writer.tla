------------------------------- MODULE Writer -------------------------------
(* Writing a value: what the output has to say (Intended, independent of   *)
(* prefixes), and where namespaces are declared and prefixes used          *)
(* (Placement).                                                            *)
EXTENDS Types

(* Events: [k "open", id, attrs, cx], [k "text", v], [k "close"]           *)
(*   attrs  sequence of [id, v] in order                                   *)
(*   cx     <<>> for elements of scalar values, <<[prefixes, force]>> for  *)
(*          elements of structs                                            *)
EvOpen(id, attrs, cx) == [k |-> "open", id |-> id, attrs |-> attrs, cx |-> cx]
EvText(v) == [k |-> "text", v |-> v]
EvClose == [k |-> "close"]

RECURSIVE Present(_, _)
Present(ty, v) ==
    CASE ty.k = "opt" -> v.c # <<>>
      [] ty.k = "box" -> Present(ty.c[1], v)
      [] OTHER -> TRUE

(* The text of a scalar or scalar enum that is present. *)
RECURSIVE TextOf(_, _)
TextOf(ty, v) ==
    CASE ty.k = "opt" -> TextOf(ty.c[1], v.c[1])
      [] ty.k = "box" -> TextOf(ty.c[1], v)
      [] ty.k = "sc" -> v.s
      [] ty.k = "ref" -> EnumText(ty.s, v.s)

Scalar(id, text) == <<EvOpen(id, <<>>, <<>>), EvText(text), EvClose>>

RECURSIVE Intended(_, _, _)
Intended(ty, v, fid) ==
    CASE ty.k = "opt" -> IF v.c = <<>> THEN <<>> ELSE Intended(ty.c[1], v.c[1], fid)
      [] ty.k = "vec" -> Concat(Map(v.c, LAMBDA x : Intended(ty.c[1], x, fid)))
      [] ty.k = "box" -> Intended(ty.c[1], v, fid)
      [] ty.k = "sc" -> IF ty.s = "With" THEN Scalar(Id("", "put"), v.s)   \* a custom function
                        ELSE IF fid = None THEN <<EvText(v.s)>> ELSE Scalar(fid[1], v.s)
      [] ty.k = "ref" ->
           LET T == Def(ty.s)
               cx == <<[prefixes |-> T.prefixes, force |-> T.force]>>
               part(i) == Intended(T.fields[i].ty, v.c[i],
                                   IF T.fields[i].mode = "elem" THEN <<FieldId(T.fields[i])>> ELSE None)
               is == [i \in 1..Len(T.fields) |-> i]
               attrs == SelectSeq(is, LAMBDA i : T.fields[i].mode = "attr" /\ Present(T.fields[i].ty, v.c[i]))
               rest == SelectSeq(is, LAMBDA i : T.fields[i].mode # "attr")
           IN CASE T.k = "senum" -> IF fid = None THEN <<EvText(EnumText(ty.s, v.s))>>
                                    ELSE Scalar(Id(T.ns, fid[1].n), EnumText(ty.s, v.s))
                [] T.k = "fwd" -> LET w == First(Where(T.variants, LAMBDA x : x.id = v.s))
                                  IN Intended(T.variants[w].ty, v.c[1], None)
                [] T.k = "inline" -> Concat(Map(rest, part))
                [] OTHER -> <<EvOpen(OwnId(ty.s),
                                     Map(attrs, LAMBDA i : [id |-> FieldId(T.fields[i]), v |-> TextOf(T.fields[i].ty, v.c[i])]),
                                     cx)>>
                            \o Concat(Map(rest, part)) \o <<EvClose>>

(* Without empty texts, adjacent texts joined: as a document shows it. *)
RECURSIVE Joined(_)
Joined(evs) ==
    IF evs = <<>> THEN <<>>
    ELSE LET e == Head(evs) r == Joined(Tail(evs)) IN
         IF e.k # "text" THEN <<e>> \o r
         ELSE IF e.v = "" THEN r
         ELSE IF r # <<>> /\ Head(r).k = "text" THEN <<EvText(e.v \o Head(r).v)>> \o Tail(r)
         ELSE <<e>> \o r

(* All pieces of text that get written. *)
Texts(evs) == {evs[i].v : i \in {j \in 1..Len(evs) : evs[j].k = "text"}}
              \cup UNION {{evs[i].attrs[j].v : j \in 1..Len(evs[i].attrs)} : i \in {j \in 1..Len(evs) : evs[j].k = "open"}}
---------------------------------------------------------------------------
(* Placement of namespace declarations.                                    *)
Prefixes(scope) == UNION {DeclaredPrefixes(scope[i]) : i \in 1..Len(scope)}
(* Prefixes bound to a namespace, none of them hidden. *)
PrefixesFor(scope, ns) == {p \in Prefixes(scope) : Binding(scope, p) = <<ns>>}
Default(scope) == Binding(scope, "")[1]

(* The scope of the parent and the level of the new element give its own.  *)
(* own: the prefixes the element's type declares, <<p, uri>> each.         *)
Rebound(own, p, ns) == \E i \in 1..Len(own) : own[i][1] = p /\ own[i][2] # ns
Usable(scope, own, ns) == {p \in PrefixesFor(scope, ns) : ~Rebound(own, p, ns)}

(* Declarations of a struct element. *)
PrefixDeclsOk(scope, level, own) ==
    LET here == Append(scope, level)
        decls == {level.m[i] : i \in 1..Len(level.m)}
    IN /\ decls \subseteq Range(own)
       /\ \A i \in 1..Len(own) : PrefixesFor(here, own[i][2]) # {}
       /\ \A d \in decls : PrefixesFor(here, d[2]) = {d[1]}
StructOk(scope, level, tag, ev) ==
    LET ns == ev.id.ns own == ev.cx[1].prefixes usable == Usable(scope, own, ns) IN
    /\ PrefixDeclsOk(scope, level, own)
    /\ level.d \in {<<>>, <<ns>>}
    /\ (ns # Default(scope) /\ usable = {}) => level.d = <<ns>> /\ tag.p = ""
    /\ (ns # Default(scope) /\ usable # {}) => tag.p \in usable
    /\ (ns = Default(scope) /\ ~ev.cx[1].force) => tag.p = ""
    /\ (ev.cx[1].force /\ usable # {}) => tag.p \in usable
    /\ (ns = Default(scope) /\ ev.cx[1].force /\ usable = {}) => Binding(Append(scope, level), tag.p) = <<ns>>
(* An element of a scalar declares nothing but its own namespace. *)
ScalarOk(scope, level, tag, ev) ==
    LET ns == ev.id.ns usable == PrefixesFor(scope, ns) IN
    /\ level.m = <<>>
    /\ ns = Default(scope) => level.d = <<>> /\ tag.p = ""
    /\ (ns # Default(scope) /\ usable # {}) => level.d = <<>> /\ tag.p \in usable
    /\ (ns # Default(scope) /\ usable = {}) => level.d = <<ns>> /\ tag.p = ""
PlacementOk(scope, level, tag, ev) ==
    IF ev.cx = <<>> THEN ScalarOk(scope, level, tag, ev) ELSE StructOk(scope, level, tag, ev)

(* The level a struct element gets if it declares the first prefix it needs *)
(* until all of its namespaces have one.                                    *)
RECURSIVE DeclareNeeded(_, _, _)
DeclareNeeded(scope, level, own) ==
    LET need == {i \in 1..Len(own) : PrefixesFor(Append(scope, level), own[i][2]) = {}}
    IN IF need = {} THEN level
       ELSE DeclareNeeded(scope, Declare(level, own[First(need)][1], own[First(need)][2]), own)

(* Whether some attribute is in a namespace without prefix at its place. *)
RECURSIVE Unbound(_, _)
Unbound(scope, evs) ==
    IF evs = <<>> THEN FALSE
    ELSE LET e == Head(evs) IN
         CASE e.k = "text" -> Unbound(scope, Tail(evs))
           [] e.k = "close" -> Unbound(SubSeq(scope, 1, Len(scope) - 1), Tail(evs))
           [] e.k = "open" ->
                LET level == IF e.cx = <<>> THEN EmptyLevel ELSE DeclareNeeded(scope, EmptyLevel, e.cx[1].prefixes)
                    here == Append(scope, level)
                IN \/ \E i \in 1..Len(e.attrs) : e.attrs[i].id.ns # "" /\ PrefixesFor(here, e.attrs[i].id.ns) = {}
                   \/ Unbound(here, Tail(evs))
=============================================================================
