---------------------------- MODULE MC_Checksum ----------------------------
(* The threads: each owns a contiguous range, works through it in order and   *)
(* signals completion; the caller waits for every signal. Checked against     *)
(* Checksum: each entry once, own result, return only after all, and the call *)
(* always returns.                                                            *)
EXTENDS Checksum, TLC, Json
CONSTANTS MaxN, MaxT, Emit
VARIABLES n, ranges, pc, signalled, waiting, bad, hist
vars == <<status, result, returned, n, ranges, pc, signalled, waiting, bad, hist>>
(* the split: step = max(1, n div t); the last range takes the rest *)
Split(k, t) == IF k = 0 THEN <<>>
               ELSE LET step == IF k \div t < 1 THEN 1 ELSE k \div t
                        m == k \div step
                    IN [j \in 1..m |-> <<(j - 1) * step, IF j = m THEN k ELSE j * step>>]
Threads == 1..Len(ranges)
Init == /\ n \in 0..MaxN /\ \E t \in 1..MaxT : ranges = Split(n, t)
        /\ status = [i \in 0..(n - 1) |-> "todo"] /\ result = [i \in 0..(n - 1) |-> 0] /\ returned = FALSE
        /\ bad \in SUBSET (0..(n - 1))                    (* files that cannot be read *)
        /\ pc = [j \in 1..Len(ranges) |-> ranges[j][1]] /\ signalled = {} /\ waiting = 1 /\ hist = <<>>
Own(i) == i + 1
Work(j) == /\ pc[j] < ranges[j][2] /\ UNCHANGED <<n, ranges, signalled, waiting, bad>>
           /\ \/ Begin(pc[j]) /\ UNCHANGED pc /\ hist' = hist
              \/ End(pc[j], IF pc[j] \in bad THEN 0 ELSE Own(pc[j])) /\ pc' = [pc EXCEPT ![j] = @ + 1] /\ hist' = Append(hist, pc[j])
Signal(j) == /\ pc[j] = ranges[j][2] /\ j \notin signalled /\ signalled' = signalled \cup {j}
             /\ UNCHANGED <<status, result, returned, n, ranges, pc, waiting, bad, hist>>
Wait == /\ ~returned /\ waiting <= Len(ranges) /\ waiting \in signalled /\ waiting' = waiting + 1
        /\ UNCHANGED <<status, result, returned, n, ranges, pc, signalled, bad, hist>>
Leave == /\ ~returned /\ waiting > Len(ranges) /\ returned' = TRUE
         /\ IF Emit THEN PrintT("@@SC " \o ToJson([n |-> n, bad |-> bad, order |-> hist, threads |-> Len(ranges)])) ELSE TRUE
         /\ UNCHANGED <<status, result, n, ranges, pc, signalled, waiting, bad, hist>>
Next == (\E j \in Threads : Work(j) \/ Signal(j)) \/ Wait \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SplitOK == /\ \A i \in 0..(n - 1) : Cardinality({j \in Threads : ranges[j][1] <= i /\ i < ranges[j][2]}) = 1
           /\ \A j \in Threads : ranges[j][1] < ranges[j][2]
Done == returned => \A i \in Entries : status[i] = "done" /\ result[i] = (IF i \in bad THEN 0 ELSE Own(i))
NoEarly == returned => \A j \in Threads : j \in signalled
Returns == <>returned
=============================================================================
