------------------------------- MODULE Str -------------------------------
(* Text: TLC strings as sequences of characters.                          *)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))          (* suffix starting at i *)
Digits == <<"0","1","2","3","4","5","6","7","8","9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
DigitVal(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(Ch(s, i))
RECURSIVE NumVal(_)
NumVal(s) == IF Len(s) = 0 THEN 0 ELSE 10 * NumVal(SubSeq(s, 1, Len(s) - 1)) + DigitVal(Ch(s, Len(s)))
(* decimal representation padded with zeros to width w *)
RECURSIVE PadDec(_, _)
PadDec(n, w) == IF w = 0 THEN "" ELSE PadDec(n \div 10, w - 1) \o Digits[(n % 10) + 1]
UC == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LC == "abcdefghijklmnopqrstuvwxyz"
LowerCh(c) == IF \E i \in 1..26 : Ch(UC, i) = c THEN Ch(LC, CHOOSE i \in 1..26 : Ch(UC, i) = c) ELSE c
RECURSIVE Lower(_)
Lower(s) == IF Len(s) = 0 THEN "" ELSE LowerCh(Ch(s, 1)) \o Lower(From(s, 2))
StartsWithAt(s, p, i) == /\ i + Len(p) - 1 <= Len(s)
                         /\ SubSeq(s, i, i + Len(p) - 1) = p
RECURSIVE ConcatStr(_)
ConcatStr(q) == IF q = <<>> THEN "" ELSE Head(q) \o ConcatStr(Tail(q))
===========================================================================
