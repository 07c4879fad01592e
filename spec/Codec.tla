------------------------------- MODULE Codec -------------------------------
(* Character data: https://www.w3.org/TR/xml/#charsets, #sec-references    *)
(*                                                                         *)
(* Text is a sequence of code points.                                      *)
EXTENDS Naturals, Sequences

ValidChar(c) == c \in {9, 10, 13} \/ c \in 32..55295 \/ c \in 57344..65533 \/ c \in 65536..1114111
Top == 1114111

Amp == 38
Semi == 59
Lt == 60
Gt == 62
Quote == 34
Apos == 39
Bracket == 93
Named == << <<<<97, 109, 112>>, Amp>>, <<<<108, 116>>, Lt>>, <<<<103, 116>>, Gt>>,
            <<<<113, 117, 111, 116>>, Quote>>, <<<<97, 112, 111, 115>>, Apos>> >>
---------------------------------------------------------------------------
(* What a reference denotes; r is what stands between & and the semicolon. *)
(* Hexadecimal references may have an upper case X as well.                *)
Digit(c) == CASE c \in 48..57 -> c - 48
              [] c \in 65..70 -> c - 55
              [] c \in 97..102 -> c - 87
              [] OTHER -> 99
RECURSIVE Number(_, _, _)
Number(digits, base, n) ==
    IF digits = <<>> THEN n
    ELSE LET d == Digit(Head(digits)) IN
         IF d >= base THEN Top + 1
         ELSE Number(Tail(digits), base, IF n > Top THEN Top + 1 ELSE n * base + d)
Denotes(r) ==   \* <<c>>, or <<>> if it is not a reference
    LET at == {i \in 1..Len(Named) : Named[i][1] = r}
        hex == Len(r) > 1 /\ r[2] \in {120, 88}
        digits == SubSeq(r, IF hex THEN 3 ELSE 2, Len(r))
        n == IF digits = <<>> THEN Top + 1 ELSE Number(digits, IF hex THEN 16 ELSE 10, 0)
    IN IF at # {} THEN <<Named[CHOOSE i \in at : TRUE][2]>>
       ELSE IF r # <<>> /\ r[1] = 35 /\ ValidChar(n) THEN <<n>>
       ELSE <<>>
---------------------------------------------------------------------------
(* Decoding: a machine over characters.                                    *)
(*   mode  "text", "ref" inside of a reference, "fail"                     *)
(*   ref   what was seen of the reference; out  what was decoded           *)
(*   long  a reference was longer than the eight characters that every     *)
(*         character needs at most: a reader may give up on it             *)
Start == [mode |-> "text", ref |-> <<>>, out |-> <<>>, long |-> FALSE]
DStep(st, c) ==
    CASE st.mode = "fail" -> st
      [] st.mode = "text" -> IF c = Amp THEN [st EXCEPT !.mode = "ref", !.ref = <<>>]
                             ELSE [st EXCEPT !.out = Append(@, c)]
      [] st.mode = "ref" ->
           IF c # Semi THEN [st EXCEPT !.ref = Append(@, c), !.long = @ \/ Len(st.ref) >= 8]
           ELSE LET d == Denotes(st.ref) IN
                IF d = <<>> THEN [st EXCEPT !.mode = "fail"]
                ELSE [st EXCEPT !.mode = "text", !.out = @ \o d]
RECURSIVE DRun(_, _)
DRun(st, s) == IF s = <<>> THEN st ELSE DRun(DStep(st, Head(s)), Tail(s))
Refuses(st) == st.mode # "text"      \* when the input ends here

(* Whether a reader's answer is right. *)
DecodeOk(s, ok, out) ==
    LET st == DRun(Start, s) IN
    IF Refuses(st) THEN ~ok ELSE IF ok THEN out = st.out ELSE st.long
---------------------------------------------------------------------------
(* Encoding. Any output will do that reads back as the original and that   *)
(* cannot be taken for markup where it stands.                             *)
Holds(s, sub) == \E i \in 0..(Len(s) - Len(sub)) : SubSeq(s, i + 1, i + Len(sub)) = sub
Inert(e, where) ==
    /\ ~Holds(e, <<Lt>>)
    /\ where = "attr" => ~Holds(e, <<Quote>>)
    /\ where = "text" => ~Holds(e, <<Bracket, Bracket, Gt>>)
    /\ \A i \in 1..Len(e) : ValidChar(e[i])
EncodeOk(s, where, ok, e) ==
    IF \E i \in 1..Len(s) : ~ValidChar(s[i]) THEN ~ok
    ELSE ok /\ Inert(e, where) /\ LET st == DRun(Start, e) IN ~Refuses(st) /\ st.out = s

(* One such output. *)
ECh(c) == LET at == {i \in 1..Len(Named) : Named[i][2] = c}
          IN IF at = {} THEN <<c>> ELSE <<Amp>> \o Named[CHOOSE i \in at : TRUE][1] \o <<Semi>>
RECURSIVE Encode(_)
Encode(s) == IF s = <<>> THEN <<>> ELSE ECh(Head(s)) \o Encode(Tail(s))
=============================================================================
