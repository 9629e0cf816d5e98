------------------------------- MODULE Dates -------------------------------
(***************************************************************************)
(* Dates and times.  Values: <<"dt", text>> datetime, <<"day", text>> date *)
(* and <<"tm", text>> time, each by its text in ISO format.                *)
(***************************************************************************)
EXTENDS Scalar

NoDate == [ok |-> FALSE]
RECURSIVE Padded(_, _)
Padded(n, w) == IF w = 0 THEN <<>> ELSE Append(Padded(n \div 10, w - 1), DigitOf(n % 10))

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
IsDay(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d \in 1..DaysIn(y, m)
IsClock(h, mi, s, us) == h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59 /\ us \in 0..999999
DayText(y, m, d) == Padded(y, 4) \o <<"-">> \o Padded(m, 2) \o <<"-">> \o Padded(d, 2)
ClockText(h, mi, s, us) ==
    Padded(h, 2) \o <<":">> \o Padded(mi, 2) \o <<":">> \o Padded(s, 2)
    \o (IF us = 0 THEN <<>> ELSE <<".">> \o Padded(us, 6))

-----------------------------------------------------------------------------
(* The day a number of days after 1970-01-01. *)
Civil(days) ==
    LET z == days + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN << yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, doy - (153 * mp + 2) \div 5 + 1 >>
FirstDay == -719162
LastDay == 2932896

(* The time a number of seconds (a float with up to six decimals) after    *)
(* the beginning of 1970, in UTC.                                          *)
FromSeconds(f) ==
    LET ds == f[3]  x == f[4]
        whole == IF x >= 0 THEN ds \o Zeros(x)
                 ELSE IF Len(ds) + x <= 0 THEN <<"0">> ELSE SubSeq(ds, 1, Len(ds) + x)
        rest == IF x >= 0 THEN <<>>
                ELSE Zeros(IF Len(ds) + x < 0 THEN -(Len(ds) + x) ELSE 0)
                     \o SubSeq(ds, MaxOf(1, Len(ds) + x + 1), Len(ds))
        us == IF Len(rest) > 6 THEN 0 ELSE DigitsToNat(rest \o Zeros(6 - Len(rest)))
        div == FoldLeft(LAMBDA acc, c : LET n == acc[2] * 10 + DigitVal(c)
                                        IN <<acc[1] * 10 + n \div 86400, n % 86400>>,
                        <<0, 0>>, whole)
        (* -(q days + r seconds + us) as days, seconds, microseconds *)
        us2 == IF f[2] /\ us > 0 THEN 1000000 - us ELSE us
        r2 == IF ~f[2] THEN div[2]
              ELSE LET r == div[2] + (IF us > 0 THEN 1 ELSE 0)
                   IN IF r = 0 THEN 0 ELSE 86400 - r
        q2 == IF ~f[2] THEN div[1]
              ELSE -div[1] - (IF div[2] + (IF us > 0 THEN 1 ELSE 0) = 0 THEN 0 ELSE 1)
        day == Civil(q2)
    IN IF Len(whole) > 12 \/ q2 < FirstDay \/ q2 > LastDay THEN NoDate
       ELSE [ok |-> TRUE, day |-> day, clock |-> <<r2 \div 3600, (r2 \div 60) % 60, r2 % 60, us2>>,
             zone |-> <<"+","0","0",":","0","0">>]

-----------------------------------------------------------------------------
(* The text isoformat gives for a datetime. *)
AllDigits(cs) == \A i \in 1..Len(cs) : cs[i] \in Digit
FromIso(cs) ==
    LET n == Len(cs)
        Num(i, j) == DigitsToNat(SubSeq(cs, i, j))
        micros == n >= 20 /\ cs[20] = "."
        clockEnd == IF micros THEN 26 ELSE 19
        zone == From(cs, clockEnd + 1)
        us == IF micros THEN Num(21, 26) ELSE 0
    IN IF /\ n >= clockEnd
          /\ AllDigits(SubSeq(cs, 1, 4)) /\ cs[5] = "-" /\ AllDigits(SubSeq(cs, 6, 7)) /\ cs[8] = "-"
          /\ AllDigits(SubSeq(cs, 9, 10)) /\ cs[11] = "T"
          /\ AllDigits(SubSeq(cs, 12, 13)) /\ cs[14] = ":" /\ AllDigits(SubSeq(cs, 15, 16)) /\ cs[17] = ":"
          /\ AllDigits(SubSeq(cs, 18, 19)) /\ (micros => AllDigits(SubSeq(cs, 21, 26)) /\ us # 0)
          /\ IsDay(Num(1, 4), Num(6, 7), Num(9, 10)) /\ IsClock(Num(12, 13), Num(15, 16), Num(18, 19), us)
          /\ \/ zone = <<>>
             \/ /\ Len(zone) = 6 /\ zone[1] \in {"+", "-"} /\ zone[4] = ":"
                /\ AllDigits(<<zone[2], zone[3], zone[5], zone[6]>>)
       THEN [ok |-> TRUE, day |-> <<Num(1, 4), Num(6, 7), Num(9, 10)>>,
             clock |-> <<Num(12, 13), Num(15, 16), Num(18, 19), us>>, zone |-> zone]
       ELSE NoDate

(* A number is a time in seconds, a text such a number or a date. *)
FromScalar(e) ==
    LET f == IF Tag(e) = "b" \/ ~IsPrim(e) THEN NoDate
             ELSE IF Tag(e) = "i" THEN [ok |-> TRUE, v |-> MakeFloat(e[2], e[3], 0)]
             ELSE IF Tag(e) = "s" THEN PyFloat(Chars(e))
             ELSE [ok |-> TRUE, v |-> e]
    IN IF f.ok THEN IF Tag(f.v) = "f" THEN FromSeconds(f.v) ELSE NoDate
       ELSE IF Tag(e) = "s" THEN FromIso(Chars(e)) ELSE NoDate

-----------------------------------------------------------------------------
(* The fields of a date, of a time or of both, by name or by position. *)
Word(kind, name) ==
    CASE name = "year" -> <<"y","e","a","r">> [] name = "month" -> <<"m","o","n","t","h">>
      [] name = "day" -> <<"d","a","y">> [] name = "hour" -> <<"h","o","u","r">>
      [] name = "minute" -> <<"m","i","n","u","t","e">> [] name = "second" -> <<"s","e","c","o","n","d">>
      [] name = "microsecond" -> <<"m","i","c","r","o","s","e","c","o","n","d">>
      [] name = "tzinfo" -> <<"t","z","i","n","f","o">> [] OTHER -> <<"f","o","l","d">>
DayParts == <<"year", "month", "day">>
ClockParts == <<"hour", "minute", "second", "microsecond", "tzinfo">>
PartsOf(kind) == CASE kind = "day" -> DayParts [] kind = "clock" -> ClockParts
                   [] OTHER -> DayParts \o ClockParts
IsWhole(v) == Tag(v) = "b" \/ IsSmall(v)
WholeOf(v) == IF Tag(v) = "b" THEN IF v[2] THEN 1 ELSE 0 ELSE ToInt(v)
FromParts(kind, e) ==
    LET parts == PartsOf(kind)
        seq == IsSeq(e)
        Key(name) == Str(Word(kind, name))
        Position(name) == IndexOf(parts, name)
        Has(name) == InSeq(parts, name) /\ IF seq THEN Position(name) <= Len(Items(e)) ELSE HasKey(e, Key(name))
        Value(name) == IF seq THEN Items(e)[Position(name)] ELSE Get(e, Key(name))
        names == {parts[i] : i \in 1..Len(parts)}
        known == names \cup (IF kind = "day" THEN {} ELSE {"fold"})
        fold == ~seq /\ HasKey(e, Key("fold")) /\ kind # "day"
        Whole(name, d) == IF Has(name) THEN WholeOf(Value(name)) ELSE d
    IN IF \/ seq /\ Len(Items(e)) > Len(parts)
          \/ ~seq /\ \E i \in 1..Len(Pairs(e)) : \A name \in known : Pairs(e)[i][1] # Key(name)
          \/ \E name \in names \ {"tzinfo"} : Has(name) /\ ~IsWhole(Value(name))
          \/ Has("tzinfo") /\ ~IsNone(Value("tzinfo"))
          \/ fold /\ ~(IsWhole(Get(e, Key("fold"))) /\ WholeOf(Get(e, Key("fold"))) \in {0, 1})
          \/ kind # "clock" /\ \E name \in {"year", "month", "day"} : ~Has(name)
          \/ kind # "clock" /\ ~IsDay(Whole("year", 1), Whole("month", 1), Whole("day", 1))
          \/ ~IsClock(Whole("hour", 0), Whole("minute", 0), Whole("second", 0), Whole("microsecond", 0))
       THEN NoDate
       ELSE [ok |-> TRUE, day |-> <<Whole("year", 1), Whole("month", 1), Whole("day", 1)>>,
             clock |-> <<Whole("hour", 0), Whole("minute", 0), Whole("second", 0), Whole("microsecond", 0)>>,
             zone |-> <<>>]

(* kind "day", "clock" or "dtm".  A date made of a number or a text is a   *)
(* datetime, which is a date as well.                                      *)
DateOf(kind, e) ==
    LET parted == IsMap(e) \/ IsSeq(e)
        r == IF parted THEN FromParts(kind, e) ELSE FromScalar(e)
        day == DayText(r.day[1], r.day[2], r.day[3])
        clock == ClockText(r.clock[1], r.clock[2], r.clock[3], r.clock[4])
    IN IF ~r.ok THEN [ok |-> FALSE, miss |-> FALSE, at |-> <<>>]
       ELSE [ok |-> TRUE,
             v |-> IF kind = "clock" THEN <<"tm", clock>>
                   ELSE IF kind = "day" /\ parted THEN <<"day", day>>
                   ELSE <<"dt", day \o <<"T">> \o clock \o r.zone>>]
=============================================================================
