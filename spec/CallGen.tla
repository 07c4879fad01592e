------------------------------ MODULE CallGen ------------------------------
(* All programs of accepted calls within bounds: Constants.starts are the  *)
(* ways to begin an element, Constants.attrs namespaces of the attributes  *)
(* that every element gets, Constants.max the number of elements.          *)
EXTENDS Calls

VARIABLES prog, mode, open, count
vars == <<prog, mode, open, count>>

Call(k, n, ns, v, cx) == [k |-> k, n |-> n, ns |-> ns, v |-> v, cx |-> cx]
Starts == Constants.starts
NameOf(i) == CASE i = 0 -> "a" [] i = 1 -> "b" [] i = 2 -> "c" [] OTHER -> "d"
AttrCalls == Map(Constants.attrs, LAMBDA ns : Call("attr", "k", ns, "v", <<>>))

Init == prog = <<>> /\ mode = "content" /\ open = <<>> /\ count = 0
(* An element without declarations of its own is for text. *)
MayNest == IF open = <<>> THEN TRUE ELSE open[Len(open)]
Begin(i) == /\ "start" \in Legal(mode) /\ MayNest
            /\ count < Constants.max /\ (count = 0 \/ open # <<>>)
            /\ prog' = prog \o <<Call("start", NameOf(count), Starts[i].ns, "", Starts[i].cx)>> \o AttrCalls
            /\ mode' = After(mode, "start") /\ count' = count + 1
            /\ open' = Append(open, Starts[i].cx # <<>>)
EndStart == /\ "open" \in Legal(mode)
            /\ prog' = prog \o <<Call("open", "", "", "", <<>>), Call("str", "", "", "t", <<>>)>> /\ mode' = After(mode, "open")
            /\ UNCHANGED <<open, count>>
EndEmpty == /\ "empty" \in Legal(mode)
            /\ prog' = Append(prog, Call("empty", "", "", "", <<>>)) /\ mode' = After(mode, "empty")
            /\ open' = SubSeq(open, 1, Len(open) - 1) /\ UNCHANGED count
Close == /\ "close" \in Legal(mode) /\ open # <<>>
         /\ prog' = Append(prog, Call("close", "", "", "", <<>>)) /\ mode' = After(mode, "close")
         /\ open' = SubSeq(open, 1, Len(open) - 1) /\ UNCHANGED count
Next == (\E i \in 1..Len(Starts) : Begin(i)) \/ EndStart \/ EndEmpty \/ Close
Spec == Init /\ [][Next]_vars

Whole == open = <<>> /\ prog # <<>>
(* Of the programs with fewer elements, the larger ones say all there is to say. *)
Out == (Whole /\ (count = Constants.max)) => PrintT(<<"P", ToJson(prog)>>)
Sane == mode = "tag" => open # <<>>
=============================================================================
