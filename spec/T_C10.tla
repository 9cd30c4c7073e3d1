------------------------------- MODULE T_C10 -------------------------------
EXTENDS TraceBase, CompStore
VARIABLES files, objs
vars == <<files, objs>>
Empty == [x \in {} |-> 0]
Init == TraceInit /\ files = Empty /\ objs = Empty
New == /\ Is("new") /\ files' = files
       /\ objs' = Put(objs, Ev.in.id, [cls |-> Ev.in.cls, time |-> Ev.in.time, keep |-> Ev.in.keep, hastimes |-> Ev.in.hastimes, times |-> Ev.in.times, rd |-> Ev.in.rd, wr |-> Ev.in.wr, mem |-> Empty])
Write == /\ Is("write")
         /\ LET r == WriteTo(objs[Ev.in.id], files, Ev.in.kind, Ev.in.t, Ev.in.v) IN
            /\ Ev.out.ok = r.ok /\ files' = r.files /\ objs' = [objs EXCEPT ![Ev.in.id].mem = r.mem]
Read == /\ Is("read") /\ files' = files
        /\ LET r == ReadFrom(objs[Ev.in.id], files, Ev.in.kind, Ev.in.t) IN
           /\ Ev.out.r = r.r /\ objs' = [objs EXCEPT ![Ev.in.id].mem = r.mem]
Times == /\ Is("times") /\ UNCHANGED vars
         /\ LET r == TimesOf(objs[Ev.in.id]) IN Ev.out.k = r.k /\ Ev.out.l = r.l
(* all files there are, at the end *)
Listing == Is("files") /\ UNCHANGED vars /\ {Ev.out.l[i] : i \in DOMAIN Ev.out.l} = {<<p, files[p]>> : p \in DOMAIN files}
Next == New \/ Write \/ Read \/ Times \/ Listing
=============================================================================
