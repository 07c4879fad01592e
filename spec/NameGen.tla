------------------------------ MODULE NameGen ------------------------------
(* The names of the items in Cases: [kind, ident, rename, rule].           *)
EXTENDS Rename

VARIABLES case, name
vars == <<case, name>>
Init == case \in 1..Len(Cases) /\ name = <<>>
Next == /\ name = <<>>
        /\ LET c == Cases[case] IN name' = <<NameOf(c.kind, c.ident, c.rename, c.rule)>>
        /\ UNCHANGED case
Spec == Init /\ [][Next]_vars
Out == name # <<>> => PrintT(<<"N", case, ToJson(name)>>)
Styles == LET c == Cases[case] IN name # <<>> /\ c.rename = <<>> =>
             /\ Letters(name[1]) = Letters(Unraw(c.ident))
             /\ c.rule # <<>> /\ c.kind # "type" => StyleOk(c.rule[1], name[1])
=============================================================================
