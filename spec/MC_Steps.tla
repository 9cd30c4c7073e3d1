----------------------------- MODULE MC_Steps -----------------------------
(* Model: a calendar odometer advanced day by day (carry rules only), next *)
(* to the closed-form calendar and step numbering of Cal and Steps.        *)
EXTENDS Steps, TLC, Json
CONSTANTS Y0, Days, Emit
VARIABLES n, y, m, d, yi, mi      (* day number; odometer; years/months passed *)
vars == <<n, y, m, d, yi, mi>>

Init == n = DayNumber(Y0, 1, 1) /\ y = Y0 /\ m = 1 /\ d = 1 /\ yi = 0 /\ mi = 0
NextDay ==
  /\ n < DayNumber(Y0, 1, 1) + Days
  /\ n' = n + 1
  /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ UNCHANGED <<m, y, mi, yi>>
     ELSE /\ d' = 1 /\ mi' = mi + 1
          /\ IF m = 12 THEN m' = 1 /\ y' = y + 1 /\ yi' = yi + 1 ELSE m' = m + 1 /\ UNCHANGED <<y, yi>>
Next == NextDay
Spec == Init /\ [][Next]_vars

Start == T(DayNumber(Y0, 1, 1), 0, 0)
Step(kind) == [kind |-> kind, start |-> Start, end |-> T(n, 86399, 0), n |-> mi + 1]
(* the odometer and the closed forms agree *)
Calendar == YearOf(n) = y /\ MonthOf(n) = m /\ DomOf(n) = d /\ DayNumber(y, m, d) = n /\ ValidDate(y, m, d)
(* numbering: consecutive, contiguous, inverse *)
Numbering ==
  /\ \A s \in {0, 86399} : /\ StepIndex(Step("daily"), T(n, s, 0)) = n - Start.d
                           /\ StepIndex(Step("annual"), T(n, s, 999999)) = yi
                           /\ StepIndex(Step("monthly"), T(n, s, 999999)) = mi
  /\ \A k \in {"daily", "annual", "monthly", "midmonth"} :
       LET st == Step(k) c == StepCount(st) IN
         /\ c > 0
         /\ \A i \in {0, c - 1} \cup {c \div 2} :
              /\ StepIndex(st, StepTime(st, i)) = i
              /\ StepIndex(st, StepBegin(st, i)) = i
              /\ StepIndex(st, T(StepBegin(st, i + 1).d - 1, 86399, 999999)) = i
         /\ StepIndex(st, T(Start.d - 1, 86399, 999999)) = -1
Emitted == (Emit /\ (d = 1 \/ d >= 28)) => PrintT("@@SC " \o ToJson([y |-> y, m |-> m, d |-> d]))
===========================================================================
