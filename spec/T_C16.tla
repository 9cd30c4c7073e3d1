------------------------------- MODULE T_C16 -------------------------------
EXTENDS TraceBase, BreakPoints
VARIABLE recs    (* records held *)
Init == TraceInit /\ recs = << >>
SetOf(q) == {q[i] : i \in DOMAIN q}
Sorted(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
(* what a holder of records answers about them *)
Describes(o, r) == /\ o.recs = r /\ o.n = Len(r)
                   /\ Sorted(o.stations) /\ SetOf(o.stations) = Stations(r) /\ o.nst = Cardinality(Stations(r))
                   /\ Len(o.counts) = Len(o.stations) /\ \A i \in DOMAIN o.stations : o.counts[i] = CountOf(r, o.stations[i])
                   /\ \A i \in DOMAIN o.sel : o.sel[i].times = TimesOf(r, o.sel[i].s)
Hold == Is("hold") /\ recs' = Ev.in.recs /\ (Describes(Ev.out, recs')) = TRUE
Read == Is("read") /\ recs' = (IF Ev.in.station < 0 THEN Present(Ev.in.recs) ELSE SelectSeq(Present(Ev.in.recs), LAMBDA r : r.s = Ev.in.station)) /\ (Describes(Ev.out, recs')) = TRUE
Policy == /\ Is("policy")
          /\ IF Known(Ev.in) THEN Ev.out.ok /\ recs' = Filter(Ev.in, recs) ELSE ~Ev.out.ok /\ recs' = recs
          /\ (Describes(Ev.out, recs')) = TRUE
(* biases of the observations of a day *)
EffectEv == /\ Is("effect") /\ recs' = recs
            /\ LET i == Ev.in e == IF SourceOf(i.group) = "" THEN {} ELSE Effect(i.group, i.sources, recs, i.stations, i.lats, i.t) IN
               /\ Ev.out.ok = (SourceOf(i.group) # "")
               /\ Ev.out.ok => (SetOf(Ev.out.pairs) = e /\ Len(Ev.out.pairs) = Cardinality(e)) = TRUE
(* the element that models station biases: one state variable per record, one entry per affected observation *)
Element == /\ Is("element")
           /\ LET i == Ev.in r == Filter([code |-> "hard", thr10 |-> i.thr10, dist2 |-> 0], Present(i.recs))
                  e == Effect("insitu_land", i.sources, r, i.stations, i.stations, i.t) IN
              /\ recs' = r /\ Ev.out.nbias = Len(r) /\ Ev.out.shape = <<Len(i.stations), Len(r)>>
              /\ (SetOf(Ev.out.entries) = {<<p[1], p[2], 1>> : p \in e} /\ Len(Ev.out.entries) = Cardinality(e)) = TRUE
              /\ Ev.out.predicted = [k \in 1..Len(i.stations) |-> LET b == {p \in e : p[1] = k - 1} IN IF b = {} THEN 0 ELSE i.state[(CHOOSE p \in b : TRUE)[2] + 1]]
Next == Hold \/ Read \/ Policy \/ EffectEv \/ Element
=============================================================================
