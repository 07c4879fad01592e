------------------------------ MODULE TreeGen ------------------------------
(* All trees of elements within bounds, for the writer: a case is          *)
(* [kinds, marks, max], the number of kinds of elements, the number of     *)
(* marks an element may carry, and the number of elements. A tree is       *)
(* printed as its elements in document order, <<depth, kind, mark>>.       *)
EXTENDS Values, Integers, TLC

VARIABLES case, tree
vars == <<case, tree>>
C == Cases[case]

Depth(t) == t[Len(t)][1]
Init == case \in 1..Len(Cases) /\ \E k \in 1..Cases[case].kinds, m \in 1..Cases[case].marks : tree = <<<<1, k, m>>>>
Next == /\ Len(tree) < C.max
        /\ \E d \in 2..(Depth(tree) + 1), k \in 1..C.kinds, m \in 1..C.marks : tree' = Append(tree, <<d, k, m>>)
        /\ UNCHANGED case
Spec == Init /\ [][Next]_vars
Out == PrintT(<<"T", case, ToJson(tree)>>)
(* One root, and nobody skips a generation. *)
Rooted == tree[1][1] = 1 /\ \A i \in 2..Len(tree) : tree[i][1] \in 2..(tree[i - 1][1] + 1)
=============================================================================
