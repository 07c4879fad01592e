------------------------------- MODULE Scope -------------------------------
(* Namespace scoping: https://www.w3.org/TR/xml-names/                     *)
(*                                                                         *)
(* A level holds the declarations of one open element:                     *)
(*   d  default namespace declared here: <<>> or <<uri>>                   *)
(*   m  prefixes declared here: sequence of <<prefix, uri>>, later wins    *)
(* A scope is the sequence of the levels of all open elements.             *)
EXTENDS Values

XmlNs == "http://www.w3.org/XML/1998/namespace"

EmptyLevel == [d |-> <<>>, m |-> <<>>]
Declare(level, p, uri) ==
    IF p = "" THEN [level EXCEPT !.d = <<uri>>]
              ELSE [level EXCEPT !.m = Append(@, <<p, uri>>)]
DeclaredPrefixes(level) == {level.m[i][1] : i \in 1..Len(level.m)}

(* Binding of a prefix (or of the default namespace for p = ""): <<uri>>,  *)
(* or <<>> if there is none. The innermost declaration wins.               *)
RECURSIVE Binding(_, _)
Binding(scope, p) ==
    IF p = "xml" THEN <<XmlNs>>
    ELSE IF scope = <<>> THEN (IF p = "" THEN <<"">> ELSE <<>>)
    ELSE LET level == scope[Len(scope)]
             here == IF p = "" THEN level.d
                     ELSE LET at == {i \in 1..Len(level.m) : level.m[i][1] = p}
                          IN IF at = {} THEN <<>> ELSE <<level.m[Last(at)][2]>>
         IN IF here # <<>> THEN here ELSE Binding(SubSeq(scope, 1, Len(scope) - 1), p)

(* Identity of an element name: unprefixed names are in the default namespace. *)
ElementId(scope, p, name) ==
    LET b == Binding(scope, p) IN IF b = <<>> THEN Fail ELSE Ok(Id(b[1], name))

(* Identity of an attribute name: unprefixed names are in no namespace. *)
AttributeId(scope, p, name) ==
    IF p = "" THEN Ok(Id("", name)) ELSE ElementId(scope, p, name)
=============================================================================
