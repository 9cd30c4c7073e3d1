------------------------------- MODULE T_C07 -------------------------------
(* Trace specification: step numbering and time conversions (C07).           *)
EXTENDS Steps, TraceBase
VARIABLES st                     (* the step of this scenario *)

Init == TraceInit /\ st = [kind |-> "none"]
In == Ev.in
Out == Ev.out
OutTime == [d |-> Out.d, s |-> Out.s, u |-> Out.u]
InTime == [d |-> In.d, s |-> In.s, u |-> In.u]

Configure == Is("step") /\ st' = In.step
Count     == Is("count") /\ Out.n = StepCount(st) /\ UNCHANGED st
Index     == Is("index") /\ Out.i = StepIndex(st, InTime) /\ UNCHANGED st
(* times of step numbers are exact, also through the round trip *)
TimeAt    == Is("time") /\ OutTime = StepTime(st, In.i) /\ UNCHANGED st
Unique    == Is("unique") /\ Out.b = IdentifiedBy(st, In.patterns) /\ UNCHANGED st
Name      == Is("name") /\ Out.name = StepName(st, In.patterns, In.i) /\ (st.kind # "once" => OutTime = StepTime(st, In.i)) /\ UNCHANGED st
(* mid-month steps: which steps need a given input *)
Needs     == Is("needs") /\ Out.steps = <<StepIndex(st, InTime)>> /\ UNCHANGED st

(* conversions relative to an epoch (In.e) ; tolerance in microseconds as documented *)
Shift(t, e) == LET s == t.s - e.s
                   u == t.u - e.u
                   s1 == IF u < 0 THEN s - 1 ELSE s
                   u1 == IF u < 0 THEN u + 1000000 ELSE u
               IN T(t.d - e.d + (IF s1 < 0 THEN -1 ELSE 0), IF s1 < 0 THEN s1 + 86400 ELSE s1, u1)
Truncate(t) == T(t.d, t.s, 0)
ToSeconds   == Is("to_seconds") /\ OutTime = Truncate(Shift(InTime, In.e)) /\ UNCHANGED st
ToDays      == Is("to_days") /\ Near(OutTime, Shift(InTime, In.e), 5) /\ UNCHANGED st
BackSeconds == Is("seconds_round_trip") /\ OutTime = Truncate(InTime) /\ UNCHANGED st
BackDays    == Is("days_round_trip") /\ Near(OutTime, InTime, 5) /\ UNCHANGED st
BackCoarse  == Is("coarse_round_trip") /\ Near(OutTime, InTime, 1000000) /\ UNCHANGED st
(* text forms *)
Stamp(t) == Render(<<"%Y", "%m", "%d", "%H", "%M", "%S">>, t)
Build    == Is("build") /\ Out.text = Stamp(InTime) /\ UNCHANGED st
Parse    == Is("parse") /\ In.text = Stamp(OutTime) /\ OutTime.u = 0 /\ UNCHANGED st
Pattern  == Is("pattern") /\ Out.text = Render(In.tokens, InTime) /\ UNCHANGED st
(* the calendar-date dictionary of a file name: missing month or day means the first *)
Dict     == Is("dict") /\ UNCHANGED st
            /\ LET f == In.f IN
               IF f.year = -1 THEN Out.k = "none"
               ELSE LET mm == IF f.month = -1 THEN 1 ELSE f.month
                        dd == IF f.month = -1 \/ f.day = -1 THEN 1 ELSE f.day
                        hh == IF f.hour = -1 THEN 0 ELSE f.hour
                        mi == IF f.minute = -1 THEN 0 ELSE f.minute
                        ss == IF f.second = -1 THEN 0 ELSE f.second
                        ok == ValidDate(f.year, mm, dd) /\ hh \in 0..23 /\ mi \in 0..59 /\ ss \in 0..59
                    IN IF ok THEN Out.k = "time" /\ OutTime = T(DayNumber(f.year, mm, dd), 3600 * hh + 60 * mi + ss, 0)
                       ELSE Out.k = "error"

Next == Configure \/ Count \/ Index \/ TimeAt \/ Unique \/ Name \/ Needs \/ ToSeconds \/ ToDays \/ BackSeconds \/ BackDays
        \/ BackCoarse \/ Build \/ Parse \/ Pattern \/ Dict
=============================================================================
