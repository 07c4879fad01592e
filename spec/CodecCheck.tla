----------------------------- MODULE CodecCheck -----------------------------
(* Recorded decodings, encodings and sweeps over all characters.           *)
(*   k "dec"    s, ok, out                                                 *)
(*   k "cdata"  the same for the text of a CDATA section                   *)
(*   k "enc"    s, where, ok, out                                          *)
(*   k "refs"   runs <<from, to, class>>: numeric references to all        *)
(*              characters, class "refused", "right" or "wrong"            *)
(*   k "chars"  runs of characters written alone, class "refused" or "raw" *)
(*              or "none" for those that are no characters                 *)
EXTENDS Codec, TLC, Json, Data

VARIABLE case
Init == case \in 1..Len(Cases)
Next == UNCHANGED case
Spec == Init /\ [][Next]_case

RefClass(c) == IF ValidChar(c) THEN "right" ELSE "refused"
Surrogate(c) == c \in 55296..57343
CharOk(c, class, where) ==
    CASE class = "none" -> Surrogate(c)
      [] class = "refused" -> ~ValidChar(c)
      [] class = "raw" -> ~Surrogate(c) /\ EncodeOk(<<c>>, where, TRUE, <<c>>)
Wrong(x) ==    \* <<>> or an example of what is wrong
    CASE x.k = "dec" -> IF DecodeOk(x.s, x.ok, x.out) THEN <<>> ELSE <<DRun(Start, x.s)>>
      [] x.k = "cdata" -> IF x.ok /\ x.out = x.s THEN <<>> ELSE <<x.s>>
      [] x.k = "enc" -> IF EncodeOk(x.s, x.where, x.ok, x.out) THEN <<>> ELSE <<Encode(x.s)>>
      [] x.k = "refs" -> LET bad == {i \in 1..Len(x.runs) : \E c \in x.runs[i][1]..x.runs[i][2] : RefClass(c) # x.runs[i][3]}
                         IN IF bad = {} THEN <<>> ELSE <<{x.runs[i] : i \in bad}>>
      [] x.k = "chars" -> LET bad == {i \in 1..Len(x.runs) : \E c \in x.runs[i][1]..x.runs[i][2] : ~CharOk(c, x.runs[i][3], x.where)}
                          IN IF bad = {} THEN <<>> ELSE <<{x.runs[i] : i \in bad}>>
Conforms == LET w == Wrong(Cases[case]) IN
            w = <<>> \/ PrintT(<<"MISMATCH", case, ToJson(w)>>)
=============================================================================
