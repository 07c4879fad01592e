------------------------------- MODULE Rename -------------------------------
(* The names of fields and enum variants.                                  *)
(*                                                                         *)
(* An identifier is a sequence of words: those of a field are separated by *)
(* underscores (snake case), those of a variant begin with capital letters *)
(* (Pascal case). A rule writes the words in another style.                *)
EXTENDS Values

Small == "abcdefghijklmnopqrstuvwxyz"
Large == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
IsLarge(c) == \E i \in 1..26 : SubSeq(Large, i, i) = c
UpChar(c) == LET at == {i \in 1..26 : SubSeq(Small, i, i) = c} IN IF at = {} THEN c ELSE LET i == First(at) IN SubSeq(Large, i, i)
DownChar(c) == LET at == {i \in 1..26 : SubSeq(Large, i, i) = c} IN IF at = {} THEN c ELSE LET i == First(at) IN SubSeq(Small, i, i)
Up(s) == Join(Map(Chars(s), UpChar))
Down(s) == Join(Map(Chars(s), DownChar))
UpFirst(s) == IF s = "" THEN "" ELSE UpChar(SubSeq(s, 1, 1)) \o SubSeq(s, 2, Len(s))
DownFirst(s) == IF s = "" THEN "" ELSE DownChar(SubSeq(s, 1, 1)) \o SubSeq(s, 2, Len(s))
RECURSIVE JoinWith(_, _)
JoinWith(words, sep) == IF Len(words) = 0 THEN "" ELSE IF Len(words) = 1 THEN words[1] ELSE words[1] \o sep \o JoinWith(Tail(words), sep)

(* An identifier without the marker that lets it be a keyword. *)
Unraw(ident) == IF Len(ident) > 2 /\ SubSeq(ident, 1, 2) = "r#" THEN SubSeq(ident, 3, Len(ident)) ELSE ident

RECURSIVE SplitAt(_, _, _)
SplitAt(cs, word, sep) ==
    IF cs = <<>> THEN <<word>>
    ELSE IF Head(cs) = sep THEN <<word>> \o SplitAt(Tail(cs), "", sep)
    ELSE SplitAt(Tail(cs), word \o Head(cs), sep)
RECURSIVE SplitCaps(_, _)
SplitCaps(cs, word) ==
    IF cs = <<>> THEN <<word>>
    ELSE IF word # "" /\ IsLarge(Head(cs)) THEN <<word>> \o SplitCaps(Tail(cs), Head(cs))
    ELSE SplitCaps(Tail(cs), word \o Head(cs))
FieldWords(ident) == SplitAt(Chars(Unraw(ident)), "", "_")
VariantWords(ident) == SplitCaps(Chars(Unraw(ident)), "")

(* sep: what keeps the words apart in the identifier itself *)
Styled(rule, words, sep) ==
    CASE rule = "lowercase" -> Down(JoinWith(words, sep))
      [] rule = "UPPERCASE" -> Up(JoinWith(words, sep))
      [] rule = "PascalCase" -> Join(Map(words, UpFirst))
      [] rule = "camelCase" -> DownFirst(Join(Map(words, UpFirst)))
      [] rule = "snake_case" -> Down(JoinWith(words, "_"))
      [] rule = "SCREAMING_SNAKE_CASE" -> Up(JoinWith(words, "_"))
      [] rule = "kebab-case" -> Down(JoinWith(words, "-"))
      [] rule = "SCREAMING-KEBAB-CASE" -> Up(JoinWith(words, "-"))

(* rename, rule: <<>> or <<text>>. Types take no part in rules. *)
NameOf(kind, ident, rename, rule) ==
    IF rename # <<>> THEN rename[1]
    ELSE IF rule = <<>> \/ kind = "type" THEN Unraw(ident)
    ELSE IF kind = "field" THEN Styled(rule[1], FieldWords(ident), "_")
    ELSE Styled(rule[1], VariantWords(ident), "")

(* What the styles are, apart from how they are made; words as above. *)
Rules == {"lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"}
NoChar(s, Bad(_)) == \A i \in 1..Len(s) : ~Bad(SubSeq(s, i, i))
StyleOk(rule, name) ==
    /\ rule \in {"lowercase", "snake_case", "kebab-case"} => Down(name) = name
    /\ rule \in {"UPPERCASE", "SCREAMING_SNAKE_CASE", "SCREAMING-KEBAB-CASE"} => Up(name) = name
    /\ rule \in {"kebab-case", "SCREAMING-KEBAB-CASE", "PascalCase", "camelCase"} => NoChar(name, LAMBDA c : c = "_")
    /\ rule = "PascalCase" => UpFirst(name) = name
    /\ rule = "camelCase" => DownFirst(name) = name
(* A rule changes case and separators only. *)
Letters(s) == Down(Join(Pick(Chars(s), LAMBDA c : c # "_" /\ c # "-")))
=============================================================================
