------------------------------- MODULE Cal -------------------------------
(* Proleptic Gregorian calendar. Times are records [d, s, u]: days since   *)
(* 1850-01-01 (may be negative), seconds of the day, microseconds.         *)
EXTENDS Integers, Sequences, Str

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> 31
YearLen(y) == IF IsLeap(y) THEN 366 ELSE 365
ValidDate(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d \in 1..MonthLen(y, m)

(* days from 0001-01-01 to 1 January of year y *)
DaysBeforeYear(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
RECURSIVE DaysBeforeMonth(_, _)
DaysBeforeMonth(y, m) == IF m = 1 THEN 0 ELSE DaysBeforeMonth(y, m - 1) + MonthLen(y, m - 1)
Epoch1850 == DaysBeforeYear(1850)
DayNumber(y, m, d) == DaysBeforeYear(y) - Epoch1850 + DaysBeforeMonth(y, m) + d - 1

(* inverse *)
YearOf(n) == LET a == n + Epoch1850
                 g == 1 + (400 * a) \div 146097
             IN CHOOSE y \in (g - 1)..(g + 1) : DaysBeforeYear(y) <= a /\ a < DaysBeforeYear(y + 1)
DayOfYear(n) == n + Epoch1850 - DaysBeforeYear(YearOf(n))            (* from 0 *)
MonthOf(n) == LET y == YearOf(n) k == DayOfYear(n)
              IN CHOOSE m \in 1..12 : DaysBeforeMonth(y, m) <= k /\ k < DaysBeforeMonth(y, m) + MonthLen(y, m)
DomOf(n) == DayOfYear(n) - DaysBeforeMonth(YearOf(n), MonthOf(n)) + 1

T(d, s, u) == [d |-> d, s |-> s, u |-> u]
TimeLE(a, b) == \/ a.d < b.d
                \/ a.d = b.d /\ (a.s < b.s \/ (a.s = b.s /\ a.u <= b.u))
TimeLT(a, b) == TimeLE(a, b) /\ a # b
MonthIndex(n) == 12 * YearOf(n) + MonthOf(n) - 1          (* months since year 0 *)
MonthStart(k) == DayNumber(k \div 12, (k % 12) + 1, 1)
YearStart(y) == DayNumber(y, 1, 1)

(* a equals b to within tol microseconds (tol < 10^9) *)
Near(a, b, tol) ==
  LET ds == (a.d - b.d) * 86400 + (a.s - b.s)
  IN /\ (a.d - b.d) \in -2..2
     /\ ds \in -2000..2000
     /\ LET du == ds * 1000000 + (a.u - b.u) IN IF du < 0 THEN -du <= tol ELSE du <= tol

(* names built from a time *)
Fmt(code, t) == CASE code = "%Y" -> PadDec(YearOf(t.d), 4)
                  [] code = "%m" -> PadDec(MonthOf(t.d), 2)
                  [] code = "%d" -> PadDec(DomOf(t.d), 2)
                  [] code = "%H" -> PadDec(t.s \div 3600, 2)
                  [] code = "%M" -> PadDec((t.s \div 60) % 60, 2)
                  [] code = "%S" -> PadDec(t.s % 60, 2)
                  [] OTHER -> code
RECURSIVE Render(_, _)
Render(tokens, t) == IF tokens = <<>> THEN "" ELSE Fmt(Head(tokens), t) \o Render(Tail(tokens), t)
===========================================================================
