------------------------------- MODULE Scalar -------------------------------
(***************************************************************************)
(* The lexical grammar of python numbers and the casts between primitives. *)
(***************************************************************************)
EXTENDS Values

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
                 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
                 [] c = "8" -> 8 [] c = "9" -> 9
Space == {" ", "\t", "\n", "\r", "\f", " ", " ", "　"}

UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
              "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m",
              "n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSet == {UpperSeq[i] : i \in 1..26}
LowerCh(c) == IF c \in UpperSet THEN LowerSeq[IndexOf(UpperSeq, c)] ELSE c
Lower(cs) == [i \in 1..Len(cs) |-> LowerCh(cs[i])]

FirstNot(cs, set) ==    \* index of the first character not in set, Len + 1 if none
    IF \A i \in 1..Len(cs) : cs[i] \in set THEN Len(cs) + 1
    ELSE CHOOSE i \in 1..Len(cs) : cs[i] \notin set /\ \A j \in 1..(i - 1) : cs[j] \in set
LStrip(cs, set) == SubSeq(cs, FirstNot(cs, set), Len(cs))
LastNot(cs, set) ==     \* index of the last character not in set, 0 if none
    IF \A i \in 1..Len(cs) : cs[i] \in set THEN 0
    ELSE CHOOSE i \in 1..Len(cs) : cs[i] \notin set /\ \A j \in (i + 1)..Len(cs) : cs[j] \in set
RStrip(cs, set) == SubSeq(cs, 1, LastNot(cs, set))
Strip(cs, set) == RStrip(LStrip(cs, set), set)
From(cs, i) == SubSeq(cs, i, Len(cs))

(* digits with single underscores between them *)
IsDigitPart(cs) ==
    /\ cs # <<>>
    /\ cs[1] \in Digit /\ cs[Len(cs)] \in Digit
    /\ \A i \in 1..Len(cs) :
         \/ cs[i] \in Digit
         \/ cs[i] = "_" /\ cs[i - 1] # "_"
NoUnderscores(cs) == SelectSeq(cs, LAMBDA c : c # "_")
NoLeadingZeros(ds) == LET r == LStrip(ds, {"0"}) IN IF r = <<>> THEN <<"0">> ELSE r

NoNumber == [ok |-> FALSE]

(* int(text) *)
PyInt(text) ==
    LET cs == Strip(text, Space)
        signed == cs # <<>> /\ cs[1] \in {"+", "-"}
        body == IF signed THEN Tail(cs) ELSE cs
    IN IF IsDigitPart(body)
       THEN LET ds == NoLeadingZeros(NoUnderscores(body))
            IN [ok |-> TRUE,
                v |-> IntV(signed /\ cs[1] = "-" /\ ds # <<"0">>, ds)]
       ELSE NoNumber

SmallDigits(ds) == Len(ds) <= 9
RECURSIVE DigitsToNat(_)
DigitsToNat(ds) ==
    IF ds = <<>> THEN 0
    ELSE DigitsToNat(SubSeq(ds, 1, Len(ds) - 1)) * 10 + DigitVal(ds[Len(ds)])
(* small ints as TLC integers *)
IsSmall(v) == Tag(v) = "i" /\ SmallDigits(v[3])
ToInt(v) == IF v[2] THEN -DigitsToNat(v[3]) ELSE DigitsToNat(v[3])

DigitOf(n) == CHOOSE c \in Digit : DigitVal(c) = n
RECURSIVE NatToDigits(_)
NatToDigits(n) ==
    IF n < 10 THEN <<DigitOf(n)>> ELSE Append(NatToDigits(n \div 10), DigitOf(n % 10))
FromInt(n) == IF n < 0 THEN IntV(TRUE, NatToDigits(-n)) ELSE IntV(FALSE, NatToDigits(n))

Zeros(n) == [i \in 1..n |-> "0"]

(* a decimal number, canonical form of a float *)
MakeFloat(neg, digits, exp) ==
    LET d1 == LStrip(digits, {"0"})
        d2 == RStrip(d1, {"0"})
        x == exp + (Len(d1) - Len(d2))
    IN IF d1 = <<>> THEN <<"f", neg, <<"0">>, 0>>
       ELSE IF Len(d2) + x > 309 THEN <<"finf", neg>>
       ELSE IF Len(d2) + x < -330 THEN <<"f", neg, <<"0">>, 0>>
       ELSE <<"f", neg, d2, x>>

FirstIn(cs, set) ==
    IF \A i \in 1..Len(cs) : cs[i] \notin set THEN Len(cs) + 1
    ELSE CHOOSE i \in 1..Len(cs) : cs[i] \in set /\ \A j \in 1..(i - 1) : cs[j] \notin set

INF1 == <<"i","n","f">>
INF2 == <<"i","n","f","i","n","i","t","y">>
NAN == <<"n","a","n">>

(* float(text) *)
PyFloat(text) ==
    LET cs == Strip(text, Space)
        signed == cs # <<>> /\ cs[1] \in {"+", "-"}
        neg == signed /\ cs[1] = "-"
        body == IF signed THEN Tail(cs) ELSE cs
        low == Lower(body)
        ePos == FirstIn(body, {"e", "E"})
        mant == SubSeq(body, 1, ePos - 1)
        hasExp == ePos <= Len(body)
        expText == From(body, ePos + 1)
        expSigned == expText # <<>> /\ expText[1] \in {"+", "-"}
        expDigits == IF expSigned THEN Tail(expText) ELSE expText
        expOk == ~hasExp \/ IsDigitPart(expDigits)
        expClean == IF hasExp THEN NoLeadingZeros(NoUnderscores(expDigits)) ELSE <<"0">>
        expNat == IF Len(expClean) > 6 THEN 999999 ELSE DigitsToNat(expClean)
        exp == IF expSigned /\ expText[1] = "-" THEN -expNat ELSE expNat
        dot == FirstIn(mant, {"."})
        whole == SubSeq(mant, 1, dot - 1)
        frac == From(mant, dot + 1)
        mantOk == /\ (whole = <<>> \/ IsDigitPart(whole))
                  /\ (frac = <<>> \/ IsDigitPart(frac))
                  /\ ~(whole = <<>> /\ frac = <<>>)
    IN IF low \in {INF1, INF2} THEN [ok |-> TRUE, v |-> <<"finf", neg>>]
       ELSE IF low = NAN THEN [ok |-> TRUE, v |-> <<"fnan">>]
       ELSE IF mantOk /\ expOk
       THEN LET w == NoUnderscores(whole)  f == NoUnderscores(frac)
            IN [ok |-> TRUE, v |-> MakeFloat(neg, w \o f, exp - Len(f))]
       ELSE NoNumber

FloatIsInteger(v) == Tag(v) = "f" /\ v[4] >= 0
FloatToInt(v) ==
    LET ds == v[3] \o Zeros(v[4])
    IN IntV(v[2] /\ ds # <<"0">>, ds)
IntToFloat(v) == MakeFloat(v[2], v[3], 0)

TrueText == <<"T","r","u","e">>
FalseText == <<"F","a","l","s","e">>

(* repr(float) *)
FloatText(v) ==
    LET sign == IF v[2] THEN <<"-">> ELSE <<>>
        ds == v[3]
        n == Len(ds)
        point == n + v[4]              \* position of the decimal point
        expo == point - 1
        expAbs == NatToDigits(IF expo < 0 THEN -expo ELSE expo)
        expTxt == (IF expo < 0 THEN <<"-">> ELSE <<"+">>)
                  \o (IF Len(expAbs) = 1 THEN <<"0">> ELSE <<>>) \o expAbs
    IN IF ds = <<"0">> THEN sign \o <<"0", ".", "0">>
       ELSE IF point > 16 \/ point <= -4
       THEN sign \o <<ds[1]>> \o (IF n > 1 THEN <<".">> \o Tail(ds) ELSE <<>>)
            \o <<"e">> \o expTxt
       ELSE IF point <= 0 THEN sign \o <<"0", ".">> \o Zeros(-point) \o ds
       ELSE IF point >= n THEN sign \o ds \o Zeros(point - n) \o <<".", "0">>
       ELSE sign \o SubSeq(ds, 1, point) \o <<".">> \o From(ds, point + 1)

(* str(primitive) *)
PrimText(v) ==
    CASE Tag(v) = "b" -> IF v[2] THEN TrueText ELSE FalseText
      [] Tag(v) = "i" -> (IF v[2] THEN <<"-">> ELSE <<>>) \o v[3]
      [] Tag(v) = "f" -> FloatText(v)
      [] Tag(v) = "finf" -> (IF v[2] THEN <<"-">> ELSE <<>>) \o INF1
      [] Tag(v) = "fnan" -> NAN
      [] OTHER -> Chars(v)

TrueWords == {<<"1">>, <<"t","r","u","e">>, <<"y">>, <<"y","e","s">>, <<"o","n">>}
FalseWords == {<<"0">>, <<"f","a","l","s","e">>, <<"n">>, <<"n","o">>, <<"o","f","f">>}

Fail == [ok |-> FALSE]
Ok(v) == [ok |-> TRUE, v |-> v]

One == IntV(FALSE, <<"1">>)
Zero == IntV(FALSE, <<"0">>)
IsNumOne(v) == v \in {One, <<"f", FALSE, <<"1">>, 0>>}
IsNumZero(v) == v = Zero \/ (Tag(v) = "f" /\ v[3] = <<"0">>)

(* The casts between primitives: a value is converted to another type only *)
(* if nothing of it gets lost.                                             *)
CastBool(v) ==
    IF Tag(v) = "b" THEN Ok(v)
    ELSE IF IsNumOne(v) THEN Ok(Bool(TRUE))
    ELSE IF IsNumZero(v) THEN Ok(Bool(FALSE))
    ELSE LET w == Lower(PrimText(v))
         IN IF w \in TrueWords THEN Ok(Bool(TRUE))
            ELSE IF w \in FalseWords THEN Ok(Bool(FALSE))
            ELSE Fail
CastInt(v) ==
    CASE Tag(v) = "i" -> Ok(v)
      [] Tag(v) = "b" -> Ok(IF v[2] THEN One ELSE Zero)
      [] Tag(v) = "f" -> IF FloatIsInteger(v) THEN Ok(FloatToInt(v)) ELSE Fail
      [] Tag(v) \in {"finf", "fnan"} -> Fail
      [] OTHER -> LET n == PyInt(Chars(v))
                      f == PyFloat(Chars(v))
                  IN IF n.ok THEN n
                     ELSE IF f.ok /\ FloatIsInteger(f.v) THEN Ok(FloatToInt(f.v))
                     ELSE Fail
CastFloat(v) ==
    CASE Tag(v) = "i" -> Ok(IntToFloat(v))
      [] Tag(v) = "b" -> Ok(IntToFloat(IF v[2] THEN One ELSE Zero))
      [] Tag(v) \in {"f", "finf", "fnan"} -> Ok(v)
      [] OTHER -> PyFloat(Chars(v))
CastStr(v) == Ok(Str(PrimText(v)))
=============================================================================
