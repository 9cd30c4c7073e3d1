------------------------------ MODULE Steps ------------------------------
(* The steps an operation iterates over.                                  *)
(* A step record: [kind, start, end] with start, end times; for "midmonth" *)
(* the period is [start, n] with n steps; "once" has a single step.        *)
EXTENDS Cal

(* number of elapsed whole days (as ordinals of 24 h) from start to t *)
DaysSince(start, t) == t.d - start.d + (IF TimeLT(T(0, t.s, t.u), T(0, start.s, start.u)) THEN -1 ELSE 0)

StepIndex(st, t) ==
  CASE st.kind = "once" -> 0
    [] st.kind = "daily" -> DaysSince(st.start, t)
    [] st.kind = "dailyepoch" -> t.d
    [] st.kind = "annual" -> YearOf(t.d) - YearOf(st.start.d)
    [] st.kind \in {"monthly", "midmonth"} -> MonthIndex(t.d) - MonthIndex(st.start.d)

StepCount(st) ==
  CASE st.kind = "once" -> 1
    [] st.kind = "midmonth" -> st.n
    [] st.kind = "dailyepoch" -> DaysSince(st.start, st.end) + 1
    [] OTHER -> StepIndex(st, st.end) + 1

MonthT(k) == T(MonthStart(k), 0, 0)
StepTime(st, i) ==
  CASE st.kind = "daily" -> T(st.start.d + i, st.start.s, st.start.u)
    [] st.kind = "dailyepoch" -> T(i, 0, 0)
    [] st.kind = "annual" -> T(YearStart(YearOf(st.start.d) + i), 0, 0)
    [] st.kind = "monthly" -> MonthT(MonthIndex(st.start.d) + i)
    [] st.kind = "midmonth" ->
         LET k == MonthIndex(st.start.d) + i
             n == MonthStart(k + 1) - MonthStart(k)
         IN T(MonthStart(k) + n \div 2, IF n % 2 = 1 THEN 43200 ELSE 0, 0)

(* first instant of step i (mid-month steps stand for their whole month) *)
StepBegin(st, i) == IF st.kind = "midmonth" THEN MonthT(MonthIndex(st.start.d) + i) ELSE StepTime(st, i)

(* name fields that identify the step *)
StepFields(st) == CASE st.kind = "once" -> {}
                    [] st.kind = "annual" -> {"%Y"}
                    [] st.kind = "monthly" -> {"%Y", "%m"}
                    [] OTHER -> {"%Y", "%m", "%d"}
Tokens(patterns) == UNION {{patterns[i][j] : j \in 1..Len(patterns[i])} : i \in 1..Len(patterns)}
IdentifiedBy(st, patterns) == StepFields(st) \subseteq Tokens(patterns)

(* path components are joined with a slash unless one already ends there *)
EndsSlash(s) == Len(s) > 0 /\ Ch(s, Len(s)) = "/"
Join(a, b) == IF Len(a) = 0 THEN b ELSE IF Len(b) > 0 /\ Ch(b, 1) = "/" THEN b ELSE IF EndsSlash(a) THEN a \o b ELSE a \o "/" \o b
RECURSIVE JoinAll(_)
JoinAll(q) == IF Len(q) = 1 THEN q[1] ELSE Join(JoinAll(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
RawTokens(q) == ConcatStr(q)
StepName(st, patterns, i) ==
  IF st.kind = "once" THEN JoinAll([k \in 1..Len(patterns) |-> RawTokens(patterns[k])])
  ELSE JoinAll([k \in 1..Len(patterns) |-> Render(patterns[k], StepTime(st, i))])
===========================================================================
