----------------------------- MODULE MC_SatGrid -----------------------------
(* Gridding in two passes over files in any order, some of which turn out to *)
(* be unreadable.  Every pixel adds to one cell; at the end the cells hold    *)
(* exactly the valid observations of the readable files.                      *)
EXTENDS SatGrid, TLC, Json
CONSTANTS MaxFiles, MaxPixels, Emit
VARIABLES files, phase, todo, sums, totals, devs, status, wrap
vars == <<files, phase, todo, sums, totals, devs, status, wrap>>
Q == [mobs |-> 1, fobs |-> 0, mvalid |-> 3, fvalid |-> 0]
Grid == [lat |-> [start |-> 0, inc |-> 2, n |-> 1, wrap |-> FALSE], lon |-> [start |-> -2, inc |-> 2, n |-> 2, wrap |-> wrap]]
Pixel(v, qc, lon, miss) == [v |-> v, qc |-> qc, lat |-> 1, lon |-> lon, ran |-> 1, atm |-> 2, sfc |-> 3, miss |-> miss]
Kinds == {Pixel(1, 0, -1, <<>>), Pixel(2, 0, 0, <<>>), Pixel(3, 2, 1, <<>>), Pixel(4, 1, 1, <<>>), Pixel(5, 0, 0, <<"LST">>), Pixel(6, 0, 2, <<>>), Pixel(7, 0, -3, <<>>)}
Lists == UNION {[1 .. n -> Kinds] : n \in 0 .. MaxPixels}
File(fate, px) == [lst |-> fate, aux |-> "ok", pixels |-> px, sys |-> 1]
Files == {File("ok", px) : px \in Lists} \cup {File(f, <<Pixel(1, 0, -1, <<>>)>>) : f \in {"missing", "novar"}}
C == 0 .. 1
Init == /\ wrap \in BOOLEAN /\ files \in UNION {[1 .. n -> Files] : n \in 1 .. MaxFiles}
        /\ phase = "first" /\ todo = DOMAIN files /\ sums = [c \in C |-> <<>>] /\ totals = [c \in C |-> 0] /\ devs = [c \in C |-> <<>>] /\ status = [i \in DOMAIN files |-> "none"]
Of(i, obs) == {o \in obs : o[1] = i}
InOrder(s) == LET m == Cardinality(s) IN CHOOSE q \in [1 .. m -> s] : \A a, b \in 1 .. m : a < b => q[a][2] < q[b][2]
Out(i) == \E o \in Of(i, Valid(files, Q) \cup Total(files, Q)) : May(Grid.lon, Px(files, o).lon)
First(i) ==
  /\ phase = "first" /\ i \in todo /\ todo' = todo \ {i} /\ status' = [status EXCEPT ![i] = Status(files[i])]
  /\ IF Out(i) THEN phase' = "refused" /\ UNCHANGED <<sums, totals>>
     ELSE /\ sums' = [c \in C |-> sums[c] \o InOrder(Where(files, Of(i, Valid(files, Q)), Grid, c))]
          /\ totals' = [c \in C |-> totals[c] + Cardinality(Where(files, Of(i, Total(files, Q)), Grid, c))]
          /\ UNCHANGED phase
  /\ UNCHANGED <<files, devs, wrap>>
Turn == /\ phase = "first" /\ todo = {} /\ phase' = "second" /\ todo' = Good(files) /\ UNCHANGED <<files, sums, totals, devs, status, wrap>>
Second(i) == /\ phase = "second" /\ i \in todo /\ todo' = todo \ {i}
  /\ devs' = [c \in C |-> devs[c] \o InOrder(Where(files, Of(i, Valid(files, Q)), Grid, c))] /\ UNCHANGED <<files, phase, sums, totals, status, wrap>>
Finish == phase = "second" /\ todo = {} /\ phase' = "done" /\ UNCHANGED <<files, todo, sums, totals, devs, status, wrap>>
Next == (\E i \in DOMAIN files : First(i) \/ Second(i)) \/ Turn \/ Finish
Spec == Init /\ [][Next]_vars
(* once each, in the cell of its place, and nothing else *)
Exact == phase = "done" =>
  /\ \A c \in C : Set(sums[c]) = Where(files, Valid(files, Q), Grid, c) /\ Len(sums[c]) = Cardinality(Set(sums[c]))
  /\ \A c \in C : Set(devs[c]) = Set(sums[c]) /\ Len(devs[c]) = Len(sums[c]) /\ totals[c] = Cardinality(Where(files, Total(files, Q), Grid, c))
  /\ \A c \in C : totals[c] >= Len(sums[c]) - Cardinality({o \in Set(sums[c]) : o \notin Total(files, Q)})
Reported == phase \in {"second", "done"} => \A i \in DOMAIN files : status[i] = Status(files[i])
Silent == phase = "done" => \A c \in C : \A o \in Set(sums[c]) : status[o[1]] = "ok" /\ Px(files, o).miss = <<>>
(* positions on the far edge belong to the first cell only where the axis wraps *)
Wrapped == phase = "done" => \A c \in C : \A o \in Set(sums[c]) : Inside(Grid.lon, Px(files, o).lon) \/ (wrap /\ c = 0 /\ Px(files, o).lon = 2)
Export == IF Emit /\ phase \in {"done", "refused"} /\ todo = {} THEN PrintT("@@SC " \o ToJson([files |-> files, wrap |-> wrap])) ELSE TRUE
=============================================================================
