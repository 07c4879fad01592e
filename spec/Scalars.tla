------------------------------ MODULE Scalars ------------------------------
(* The mapping between text and scalar values.                             *)
(* Parse(s, text) is Ok(canonical text) or Fail.                           *)
(* Floating-point numbers are given by tables: texts and what they denote. *)
EXTENDS Address

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
\* White space skipped around numbers.
Blank == Range(Constants.blank)

RECURSIVE TrimLeft(_), TrimRight(_), StripZeros(_)
TrimLeft(s) == IF s # "" /\ SubSeq(s, 1, 1) \in Blank THEN TrimLeft(SubSeq(s, 2, Len(s))) ELSE s
TrimRight(s) == IF s # "" /\ SubSeq(s, Len(s), Len(s)) \in Blank THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimRight(TrimLeft(s))
\* Without leading zeros, but never empty.
StripZeros(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN StripZeros(SubSeq(s, 2, Len(s))) ELSE s
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in Digits

DigitValue(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                   [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
RECURSIVE DigitsLeq(_, _)
DigitsLeq(a, b) ==   \* same length
    IF a = "" THEN TRUE
    ELSE LET x == DigitValue(SubSeq(a, 1, 1)) y == DigitValue(SubSeq(b, 1, 1))
         IN x < y \/ (x = y /\ DigitsLeq(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b))))
\* a <= b for numerals without leading zeros
NumLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ DigitsLeq(a, b))

Unsigned == {"u8", "u16", "u32", "u64", "usize"}
Signed == {"i8", "i16", "i32", "i64", "isize"}
Max(s) == CASE s = "u8" -> "255" [] s = "u16" -> "65535" [] s = "u32" -> "4294967295"
            [] s \in {"u64", "usize"} -> "18446744073709551615"
            [] s = "i8" -> "127" [] s = "i16" -> "32767" [] s = "i32" -> "2147483647"
            [] s \in {"i64", "isize"} -> "9223372036854775807"
\* Magnitude of the least value.
MinMag(s) == CASE s = "i8" -> "128" [] s = "i16" -> "32768" [] s = "i32" -> "2147483648"
               [] s \in {"i64", "isize"} -> "9223372036854775808"

ParseInt(s, text) ==
    LET t == Trim(text)
        sign == IF t # "" /\ SubSeq(t, 1, 1) \in {"+", "-"} THEN SubSeq(t, 1, 1) ELSE ""
        body == IF sign = "" THEN t ELSE SubSeq(t, 2, Len(t))
        num == StripZeros(body)
    IN IF ~AllDigits(body) THEN Fail
       ELSE IF sign = "-"
            THEN IF s \in Unsigned THEN Fail
                 ELSE IF num = "0" THEN Ok("0")
                 ELSE IF NumLeq(num, MinMag(s)) THEN Ok("-" \o num) ELSE Fail
            ELSE IF NumLeq(num, Max(s)) THEN Ok(num) ELSE Fail

ParseBool(text) == CASE text \in {"true", "1"} -> Ok("true")
                     [] text \in {"false", "0"} -> Ok("false")
                     [] OTHER -> Fail
ParseChar(text) == IF Len(text) = 1 THEN Ok(text) ELSE Fail

\* Calendar dates in the form YYYY-MM-DD.
Num2(s) == DigitValue(SubSeq(s, 1, 1)) * 10 + DigitValue(SubSeq(s, 2, 2))
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                     [] m \in {4, 6, 9, 11} -> 30
                     [] OTHER -> 31
\* A year of four digits, or one that needs more or a sign.
YearOk(t) == LET c == SubSeq(t, 1, 1) y == SubSeq(t, 2, Len(t)) IN
             \/ Len(t) = 4 /\ AllDigits(t)
             \/ c = "+" /\ Len(t) = 6 /\ AllDigits(y) /\ SubSeq(y, 1, 1) # "0"
             \/ c = "-" /\ Len(t) = 5 /\ AllDigits(y) /\ y # "0000"
RECURSIVE Number(_)
Number(s) == IF s = "" THEN 0 ELSE Number(SubSeq(s, 1, Len(s) - 1)) * 10 + DigitValue(SubSeq(s, Len(s), Len(s)))
Year(t) == IF SubSeq(t, 1, 1) \in Digits THEN Number(t) ELSE Number(SubSeq(t, 2, Len(t)))    \* of a negative one, whether it is a leap year
ParseDate(t) ==
    LET y == SubSeq(t, 1, Len(t) - 6) rest == SubSeq(t, Len(t) - 5, Len(t)) IN
    IF Len(t) >= 10 /\ YearOk(y) /\ SubSeq(rest, 1, 1) = "-" /\ SubSeq(rest, 4, 4) = "-"
       /\ AllDigits(SubSeq(rest, 2, 3)) /\ AllDigits(SubSeq(rest, 5, 6))
    THEN LET m == Num2(SubSeq(rest, 2, 3))
             d == Num2(SubSeq(rest, 5, 6))
         IN IF m \in 1..12 /\ d \in 1..MonthDays(Year(y), m) THEN Ok(t) ELSE Fail
    ELSE Fail

\* Points in time: date, time to the second (the 60th may be a leap second),
\* a fraction, and, unless local, the offset of UTC.
RECURSIVE StripTail(_), Pad(_)
StripTail(s) == IF s # "" /\ SubSeq(s, Len(s), Len(s)) = "0" THEN StripTail(SubSeq(s, 1, Len(s) - 1)) ELSE s
Pad(s) == IF Len(s) % 3 = 0 THEN s ELSE Pad(s \o "0")
\* Thousandths, millionths or billionths: what it takes.
Fraction(s) ==
    IF s = "" THEN Ok("")
    ELSE LET f == SubSeq(s, 2, Len(s)) IN
         IF SubSeq(s, 1, 1) = "." /\ Len(f) <= 9 /\ AllDigits(f)
         THEN Ok(IF StripTail(f) = "" THEN "" ELSE "." \o Pad(StripTail(f))) ELSE Fail
ParseTime(t) ==
    LET two(i) == SubSeq(t, i, i + 1) f == Fraction(SubSeq(t, 9, Len(t))) IN
    IF Len(t) >= 8 /\ (\A i \in {1, 4, 7} : AllDigits(two(i))) /\ (\A i \in {3, 6} : SubSeq(t, i, i) = ":") /\ f.ok
       /\ Num2(two(1)) < 24 /\ Num2(two(4)) < 60 /\ Num2(two(7)) <= 60
    THEN Ok(SubSeq(t, 1, 8) \o f.v[1]) ELSE Fail
ParseLocal(t) ==
    LET at == {i \in 1..Len(t) : SubSeq(t, i, i) = "T"}
        cut == CHOOSE i \in at : \A j \in at : i <= j
        d == ParseDate(SubSeq(t, 1, cut - 1))
        c == ParseTime(SubSeq(t, cut + 1, Len(t)))
    IN IF at # {} /\ d.ok /\ c.ok THEN Ok(d.v[1] \o "T" \o c.v[1]) ELSE Fail
ParseUTC(t) ==
    LET tail(n) == SubSeq(t, Len(t) - n + 1, Len(t))
        n == IF t # "" /\ tail(1) = "Z" THEN 1 ELSE IF Len(t) > 6 /\ tail(6) \in {"+00:00", "-00:00"} THEN 6 ELSE 0
        l == ParseLocal(SubSeq(t, 1, Len(t) - n))
    IN IF n > 0 /\ l.ok THEN Ok(l.v[1] \o "+00:00") ELSE Fail

Parse(s, text) ==
    CASE s \in Unsigned \cup Signed -> ParseInt(s, text)
      [] s = "bool" -> ParseBool(text)
      [] s = "char" -> ParseChar(text)
      [] s = "NaiveDate" -> ParseDate(TrimLeft(text))
      [] s = "NaiveDateTime" -> ParseLocal(text)
      [] s = "DateTime" -> ParseUTC(text)
      [] s = "IpAddr" -> Addr(text)
      [] s \in DOMAIN Constants.opaque ->
           IF text \in DOMAIN Constants.opaque[s] THEN Ok(Constants.opaque[s][text]) ELSE Fail
      [] s = "Hand" -> IF text # "" /\ SubSeq(text, 1, 1) = "#" THEN Ok(text) ELSE Fail   \* a type of the user's, by the helper functions
      [] s = "Nothing" -> Ok("")  \* the unit type: whatever there is
      [] OTHER -> Ok(text)        \* strings

\* Types for which an element without text is an empty value and not a missing one.
TextTypes == {"String", "CowStr", "BorrowStr", "BorrowBytes", "With", "Nothing"}
=============================================================================
