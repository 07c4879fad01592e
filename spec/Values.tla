------------------------------ MODULE Values ------------------------------
(* Data shared by all modules.                                             *)
(*                                                                         *)
(* A value of any Rust type is a uniform node [k, s, c]: kind, text and    *)
(* children, so that TLC can compare any two values.                       *)
(*   k = "s"  scalar, s its canonical text                                 *)
(*   k = "e"  scalar enum, s the variant                                   *)
(*   k = "r"  struct, tuple struct or unit struct, c the fields in order   *)
(*   k = "i"  transparent struct, c the fields in order                    *)
(*   k = "o"  option, c = <<>> or <<v>>                                    *)
(*   k = "v"  vector, c the items                                          *)
(*   k = "f"  forward enum, s the variant, c = <<v>>                       *)
(*   k = "x"  captured element (AnyElement), s its local name,             *)
(*            c = <<namespace, text as option, attributes, children>>      *)
(*   k = "a"  captured attribute, s its local name, c = <<ns, value>>      *)
(* A Box or Cow has the value of what it holds.                            *)
EXTENDS FiniteSets, Data

V(k, s, c) == [k |-> k, s |-> s, c |-> c]
VScalar(s) == V("s", s, <<>>)
VSome(v) == V("o", "", <<v>>)
VNone == V("o", "", <<>>)
VVec(vs) == V("v", "", vs)

(* An Id is the resolved identity of an element or attribute. *)
Id(ns, name) == [ns |-> ns, n |-> name]

(* Positions in a sequence satisfying a test, and the first of them. *)
Where(seq, Test(_)) == {i \in 1..Len(seq) : Test(seq[i])}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Last(S) == CHOOSE i \in S : \A j \in S : i >= j
Map(seq, F(_)) == [i \in 1..Len(seq) |-> F(seq[i])]
Pick(seq, Test(_)) == SelectSeq(seq, Test)
RECURSIVE Concat(_)
Concat(seqs) == IF seqs = <<>> THEN <<>> ELSE Head(seqs) \o Concat(Tail(seqs))
RECURSIVE Join(_)
Join(strs) == IF strs = <<>> THEN "" ELSE Head(strs) \o Join(Tail(strs))
Range(seq) == {seq[i] : i \in 1..Len(seq)}

(* The characters of a string, as one-character strings. *)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
---------------------------------------------------------------------------
(* Result of something that can fail. *)
Ok(v) == [ok |-> TRUE, v |-> <<v>>]
Fail == [ok |-> FALSE, v |-> <<>>]
=============================================================================
