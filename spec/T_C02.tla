------------------------------- MODULE T_C02 -------------------------------
(* Trace specification for checksum runs: beginnings and ends of the          *)
(* computations of single entries as observed in the worker threads.          *)
EXTENDS Checksum, TraceBase
VARIABLES files
Init == TraceInit /\ status = <<>> /\ result = <<>> /\ returned = TRUE /\ files = <<>>
Call == /\ Is("call") /\ returned
        /\ files' = Ev.in.files
        /\ status' = [i \in 1..Len(Ev.in.files) |-> "todo"]
        /\ result' = [i \in 1..Len(Ev.in.files) |-> 0]
        /\ returned' = FALSE
TBegin == Is("begin") /\ Begin(Ev.in.i) /\ UNCHANGED files
TEnd   == Is("end") /\ End(Ev.in.i, IF files[Ev.in.i].ok THEN Ev.in.i ELSE 0) /\ UNCHANGED files
TReturn == Is("return") /\ Return /\ UNCHANGED files
(* contents of the entries afterwards: checksum and size of exactly their own file *)
Final == /\ Is("final") /\ returned
         /\ Len(Ev.out.entries) = Len(files)
         /\ \A i \in 1..Len(files) :
              Ev.out.entries[i] = (IF result[i] = 0 THEN [sum |-> "none", size |-> -1] ELSE [sum |-> files[result[i]].sum, size |-> files[result[i]].size])
         /\ UNCHANGED <<cvars, files>>
Pairs == Ev.out.ranges
SplitEv == /\ Is("split")
           /\ LET n == Ev.in.n IN
              IF n = 0 THEN Pairs = <<>>
              ELSE /\ Len(Pairs) >= 1 /\ Pairs[1][1] = 0 /\ Pairs[Len(Pairs)][2] = n
                   /\ \A j \in 1..Len(Pairs) : Pairs[j][1] < Pairs[j][2]
                   /\ \A j \in 1..(Len(Pairs) - 1) : Pairs[j][2] = Pairs[j + 1][1]
           /\ UNCHANGED <<cvars, files>>
Next == Call \/ TBegin \/ TEnd \/ TReturn \/ Final \/ SplitEv
=============================================================================
