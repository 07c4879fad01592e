------------------------------ MODULE CodecGen ------------------------------
(* All texts over an alphabet up to a length, with what they decode to:    *)
(* the decoding machine is stepped with every character that can follow.   *)
(* Each text is printed together with the outcome, to be replayed.         *)
EXTENDS Codec, TLC, Json, Data

VARIABLES s, st
vars == <<s, st>>
Alphabet == {Constants.alphabet[i] : i \in 1..Len(Constants.alphabet)}

Init == s = Constants.start /\ st = DRun(Start, Constants.start)
Next == /\ Len(s) < Constants.max
        /\ st.mode # "fail"     \* nothing repairs a bad reference
        /\ \E c \in Alphabet : s' = Append(s, c) /\ st' = DStep(st, c)
Spec == Init /\ [][Next]_vars

Out == PrintT(<<"D", ToJson(s), IF Refuses(st) THEN "fail" ELSE IF st.long THEN "long" ELSE "ok", ToJson(st.out)>>)

(* Facts about the machine itself. *)
Plain == ~Holds(s, <<Amp>>) => ~Refuses(st) /\ st.out = s
Inverse == DRun(Start, Encode(s)).out = s /\ ~Refuses(DRun(Start, Encode(s)))
Harmless == Inert(Encode(s), "attr") /\ Inert(Encode(s), "text")
Shrinks == Len(st.out) + Len(st.ref) <= Len(s)
Legal == \A i \in 1..Len(st.out) : ValidChar(st.out[i]) \/ Holds(s, <<st.out[i]>>)
=============================================================================
