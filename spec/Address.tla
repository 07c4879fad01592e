------------------------------ MODULE Address ------------------------------
(* Addresses as text: four decimal numbers with points between them, or    *)
(* eight hexadecimal ones with colons, a run of zeros left out as "::" and *)
(* the last two possibly as four decimal ones (RFC 4291, RFC 5952).        *)
(* Addr(text) is Ok(canonical text) or Fail.                               *)
EXTENDS Values, Integers

HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Upper == <<"A", "B", "C", "D", "E", "F">>
\* What a digit stands for, or 16.
HexValue(c) ==
    LET lower == {i \in 1..16 : HexDigits[i] = c} upper == {i \in 1..6 : Upper[i] = c}
    IN IF lower # {} THEN (CHOOSE i \in lower : TRUE) - 1
       ELSE IF upper # {} THEN (CHOOSE i \in upper : TRUE) + 9 ELSE 16
At(t, i) == SubSeq(t, i, i)
RECURSIVE InBase(_, _)
InBase(t, base) == IF t = "" THEN 0 ELSE InBase(SubSeq(t, 1, Len(t) - 1), base) * base + HexValue(At(t, Len(t)))
Numeral(t, base, longest) == Len(t) \in 1..longest /\ \A i \in 1..Len(t) : HexValue(At(t, i)) < base

\* The parts of a text between separators; at least one.
RECURSIVE Split(_, _)
Split(t, c) ==
    LET at == {i \in 1..Len(t) : At(t, i) = c} IN
    IF at = {} THEN <<t>>
    ELSE LET cut == CHOOSE i \in at : \A j \in at : i <= j
         IN <<SubSeq(t, 1, cut - 1)>> \o Split(SubSeq(t, cut + 1, Len(t)), c)

\* Four numbers up to 255, without leading zeros: <<a, b, c, d>>, or <<>>.
Quad(t) ==
    LET p == Split(t, ".") IN
    IF Len(p) = 4 /\ \A i \in 1..4 : Numeral(p[i], 10, 3) /\ (Len(p[i]) > 1 => At(p[i], 1) # "0") /\ InBase(p[i], 10) <= 255
    THEN [i \in 1..4 |-> InBase(p[i], 10)] ELSE <<>>

\* The 16 bit numbers that colons separate; the end may be a quad if `quad`.
NoGroups == <<-1>>
Groups(t, quad) ==
    IF t = "" THEN <<>>
    ELSE LET p == Split(t, ":")
             n == Len(p)
             q == IF quad THEN Quad(p[n]) ELSE <<>>
             hex(m) == \A i \in 1..m : Numeral(p[i], 16, 4)
             front(m) == [i \in 1..m |-> InBase(p[i], 16)]
         IN IF q # <<>> /\ hex(n - 1) THEN front(n - 1) \o <<q[1] * 256 + q[2], q[3] * 256 + q[4]>>
            ELSE IF hex(n) THEN front(n) ELSE NoGroups

\* Eight numbers, or <<>>.
Eight(t) ==
    LET gaps == {i \in 1..(Len(t) - 1) : SubSeq(t, i, i + 1) = "::"} IN
    IF gaps = {}
    THEN LET g == Groups(t, TRUE) IN IF Len(g) = 8 THEN g ELSE <<>>
    ELSE LET gap == CHOOSE i \in gaps : \A j \in gaps : i <= j
             front == Groups(SubSeq(t, 1, gap - 1), FALSE)
             back == Groups(SubSeq(t, gap + 2, Len(t)), TRUE)
         IN IF front = NoGroups \/ back = NoGroups \/ Len(front) + Len(back) > 7 THEN <<>>
            ELSE front \o [i \in 1..(8 - Len(front) - Len(back)) |-> 0] \o back

RECURSIVE InDigits(_, _)
InDigits(n, base) == (IF n < base THEN "" ELSE InDigits(n \div base, base)) \o HexDigits[(n % base) + 1]
RECURSIVE Listed(_, _, _)
Listed(ns, base, c) == IF ns = <<>> THEN "" ELSE InDigits(Head(ns), base) \o (IF Len(ns) = 1 THEN "" ELSE c \o Listed(Tail(ns), base, c))

\* The longest run of zeros, the first of these, is left out if it is more than one.
Text8(g) ==
    LET runs == {r \in (1..8) \X (1..8) : r[1] + r[2] <= 9 /\ \A i \in r[1]..(r[1] + r[2] - 1) : g[i] = 0}
        best == CHOOSE r \in runs : \A s \in runs : r[2] > s[2] \/ (r[2] = s[2] /\ r[1] <= s[1])
    IN IF \A i \in 1..5 : g[i] = 0 /\ g[6] = 65535
       THEN "::ffff:" \o Listed(<<g[7] \div 256, g[7] % 256, g[8] \div 256, g[8] % 256>>, 10, ".")
       ELSE IF runs = {} \/ best[2] = 1 THEN Listed(g, 16, ":")
       ELSE Listed(SubSeq(g, 1, best[1] - 1), 16, ":") \o "::" \o Listed(SubSeq(g, best[1] + best[2], 8), 16, ":")

Addr(t) ==
    LET q == Quad(t) g == Eight(t)
    IN IF q # <<>> THEN Ok(Listed(q, 10, ".")) ELSE IF g # <<>> THEN Ok(Text8(g)) ELSE Fail
=============================================================================
