----------------------------- MODULE MC_Search -----------------------------
(* The search as the catalogue performs it: candidates are taken in any       *)
(* order, grouped by the values found with the parent pattern, each group is   *)
(* then matched with the child pattern, groups in any order. Checked: whatever *)
(* the order, the outcome is the per-file classification of NamePatterns.      *)
EXTENDS NamePatterns, TLC, Json
CONSTANTS MaxFiles, Emit
Parents == << <<"%A", "_", "%B", "/">>, <<"%Y", "/">>, <<"%A", "/">> >>
Children == << <<"%a", "_", "%C">>, <<"%B", "%A">>, <<"x", "%Y", "%m">> >>
Names == {"X_Y/x_q", "X/x_Yx", "x_y/yx", "x_x_y/y", "2001/x200113", "2001/x200112", "2000/x200102", "X_/X", "stray"}
VARIABLES patterns, fs, todo, groups, matches, errors, matched, done
vars == <<patterns, fs, todo, groups, matches, errors, matched, done>>
Init == /\ patterns \in {<<Parents[i], Children[j]>> : i \in 1..3, j \in 1..3}
        /\ fs \in {S \in SUBSET Names : Cardinality(S) \in 1..MaxFiles}
        /\ todo = fs /\ groups = [k \in {} |-> <<>>] /\ matches = {} /\ errors = {} /\ matched = {} /\ done = FALSE
Group == /\ todo # {}
         /\ \E n \in todo :
              /\ todo' = todo \ {n}
              /\ LET r == Match(patterns[1], n, NoFields) IN
                 groups' = IF ~r.ok THEN groups
                           ELSE [k \in DOMAIN groups \cup {r.f} |-> IF k = r.f THEN (IF r.f \in DOMAIN groups THEN groups[k] ELSE {}) \cup {<<n, r.end>>} ELSE groups[k]]
         /\ UNCHANGED <<patterns, fs, matches, errors, matched, done>>
Child == /\ todo = {} /\ ~done
         /\ \E g \in DOMAIN groups :
              /\ groups' = [k \in DOMAIN groups \ {g} |-> groups[k]]
              /\ LET hit == {e \in groups[g] : Match(patterns[2], From(e[1], e[2]), g).ok}
                     f(e) == LET q == Match(patterns[2], From(e[1], e[2]), g).f IN [x \in DOMAIN g \cup DOMAIN q |-> IF x \in DOMAIN q THEN q[x] ELSE g[x]]
                     good(e) == ~HasTime(f(e)) \/ ValidTime(f(e))
                 IN /\ matched' = matched \cup {e[1] : e \in hit}
                    /\ matches' = matches \cup {[name |-> e[1], time |-> IF HasTime(f(e)) THEN TimeOf(f(e)) ELSE NoTime, tags |-> Tags(f(e))] : e \in {x \in hit : good(x)}}
                    /\ errors' = errors \cup {e[1] : e \in {x \in hit : ~good(x)}}
         /\ UNCHANGED <<patterns, fs, todo, done>>
Finish == /\ todo = {} /\ DOMAIN groups = {} /\ ~done /\ done' = TRUE
          /\ IF Emit THEN PrintT("@@SC " \o ToJson([patterns |-> patterns, files |-> fs])) ELSE TRUE
          /\ UNCHANGED <<patterns, fs, todo, groups, matches, errors, matched>>
Next == Group \/ Child \/ Finish
Outcome == done => /\ matches = FileMatches(patterns, fs)
                   /\ errors = FileErrors(patterns, fs)
                   /\ matched = Touched(patterns, fs)
Accounted == done => \A n \in fs : \/ n \notin matched /\ n \notin errors /\ \A e \in matches : e.name # n
                                   \/ n \in matched /\ ((n \in errors) # (\E e \in matches : e.name = n))
=============================================================================
