----------------------------- MODULE Checksum -----------------------------
(* Checksums of the N entries of a subset, computed by worker threads that   *)
(* split the entries among them while the caller waits for all of them.      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES status,      (* entry -> "todo" | "running" | "done"               *)
          result,      (* entry -> 0 (none) or the checksum of its own file  *)
          returned     (* the caller has been released                      *)
cvars == <<status, result, returned>>

Entries == DOMAIN status
Begin(i) == /\ i \in Entries /\ status[i] = "todo" /\ ~returned
            /\ status' = [status EXCEPT ![i] = "running"] /\ UNCHANGED <<result, returned>>
(* sum = 0: the file cannot be read, the entry is left without checksum *)
End(i, sum) == /\ i \in Entries /\ status[i] = "running" /\ ~returned
               /\ status' = [status EXCEPT ![i] = "done"]
               /\ result' = [result EXCEPT ![i] = sum] /\ UNCHANGED returned
Return == /\ ~returned /\ \A i \in Entries : status[i] = "done"
          /\ returned' = TRUE /\ UNCHANGED <<status, result>>
===========================================================================
