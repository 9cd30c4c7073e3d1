------------------------------- MODULE T_C24 -------------------------------
EXTENDS TraceBase, Ice
Init == TraceInit
Fits(e) == (Joinable(e.in.s, e.in.n)) = TRUE
All(e, tol, utol) == \A k \in Kinds : Global(e.out.q[k], e.in.s, e.in.n, k, e.in.coef, e.in.season, tol, utol)
(* both hemispheres in memory *)
World == Is("world") /\ Ev.out.ok = Fits(Ev) /\ (Ev.out.ok => (All(Ev, 6, 2)) = TRUE)
(* a day run from files to files *)
Day == /\ Is("day") /\ Ev.out.ok = (Fits(Ev) /\ ~Ev.in.exists)
       /\ Ev.out.main = (Ev.out.ok \/ Ev.in.keep = 1) /\ Ev.out.anc = (Ev.out.ok \/ Ev.in.keep = 2) /\ Ev.out.kept
       /\ Ev.out.ok => ((All(Ev, 32, 4)) = TRUE /\ Ev.out.day = Ev.in.s.day)
(* fields of other sizes are refused *)
Sizes == Is("sizes") /\ Ev.out.ok = (Ev.in.which = "none")
(* parameters of a kind of ice or of a variable missing: refused *)
Params == Is("params") /\ Ev.out.ok = (Ev.in.which = "none")
Next == World \/ Day \/ Sizes \/ Params
=============================================================================
