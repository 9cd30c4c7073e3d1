--------------------------- MODULE NamePatterns ---------------------------
(* What a file name says, according to one pattern or two nested patterns.  *)
(* A pattern is a sequence of tokens: literal text, "?" (any character),     *)
(* "%Y" "%m" "%d" "%H" "%M" "%S" (date and time digits), "%A" "%B" "%C"      *)
(* (tags, longest text first), "%a" "%b" "%c" (lower case of a known tag).   *)
(* A pattern has to match from the start of the name, not up to its end.     *)
EXTENDS Cal, FiniteSets

DateCodes == {"%Y", "%m", "%d", "%H", "%M", "%S"}
TagCodes == {"%A", "%B", "%C"}
RefCodes == {"%a", "%b", "%c"}
TagOf(ref) == CASE ref = "%a" -> "%A" [] ref = "%b" -> "%B" [] ref = "%c" -> "%C"
Width(code) == IF code = "%Y" THEN 4 ELSE 2
NoFields == [k \in {} |-> ""]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Fail == [ok |-> FALSE, end |-> 0, f |-> NoFields]

RECURSIVE MatchFrom(_, _, _, _, _, _), TryTag(_, _, _, _, _, _, _)
MatchFrom(p, k, s, pos, known, f) ==
  IF k > Len(p) THEN [ok |-> TRUE, end |-> pos, f |-> f]
  ELSE LET tok == p[k]
           lit(v) == IF StartsWithAt(s, v, pos) THEN MatchFrom(p, k + 1, s, pos + Len(v), known, f) ELSE Fail
       IN CASE tok = "?" -> IF pos <= Len(s) THEN MatchFrom(p, k + 1, s, pos + 1, known, f) ELSE Fail
            [] tok \in DateCodes /\ tok \notin DOMAIN known ->
                 LET w == Width(tok) v == SubSeq(s, pos, pos + w - 1) IN
                 IF pos + w - 1 <= Len(s) /\ AllDigits(v) THEN MatchFrom(p, k + 1, s, pos + w, known, With(f, tok, v)) ELSE Fail
            [] tok \in TagCodes /\ tok \notin DOMAIN known -> TryTag(p, k, s, pos, known, f, Len(s))
            [] tok \in DateCodes \cup TagCodes -> lit(known[tok])
            [] tok \in RefCodes /\ TagOf(tok) \in DOMAIN known -> lit(Lower(known[TagOf(tok)]))
            [] OTHER -> lit(tok)
TryTag(p, k, s, pos, known, f, e) ==       (* tag text is s[pos..e], longest first *)
  IF e < pos - 1 THEN Fail
  ELSE LET r == MatchFrom(p, k + 1, s, e + 1, known, With(f, p[k], SubSeq(s, pos, e)))
       IN IF r.ok THEN r ELSE TryTag(p, k, s, pos, known, f, e - 1)

Match(p, s, known) == MatchFrom(p, 1, s, 1, known, NoFields)

(* result for one name: [ok, f] *)
Fields(patterns, name) ==
  IF Len(patterns) = 1 THEN LET r == Match(patterns[1], name, NoFields) IN [ok |-> r.ok, f |-> r.f]
  ELSE LET r == Match(patterns[1], name, NoFields) IN
       IF ~r.ok THEN [ok |-> FALSE, f |-> NoFields]
       ELSE LET q == Match(patterns[2], From(name, r.end), r.f)
            IN [ok |-> q.ok, f |-> [x \in DOMAIN r.f \cup DOMAIN q.f |-> IF x \in DOMAIN q.f THEN q.f[x] ELSE r.f[x]]]

(* the time spelled by the fields; missing month or day means the first; no date fields: no time *)
HasTime(f) == "%Y" \in DOMAIN f
Num(f, k, default) == IF k \in DOMAIN f THEN NumVal(f[k]) ELSE default
FMonth(f) == Num(f, "%m", 1)
FDay(f) == IF "%m" \in DOMAIN f THEN Num(f, "%d", 1) ELSE 1
ValidTime(f) == /\ ValidDate(Num(f, "%Y", 0), FMonth(f), FDay(f))
                /\ Num(f, "%H", 0) \in 0..23 /\ Num(f, "%M", 0) \in 0..59 /\ Num(f, "%S", 0) \in 0..59
TimeOf(f) == T(DayNumber(Num(f, "%Y", 0), FMonth(f), FDay(f)), 3600 * Num(f, "%H", 0) + 60 * Num(f, "%M", 0) + Num(f, "%S", 0), 0)
NoTime == T(-1, -1, -1)
Tags(f) == IF "%A" \notin DOMAIN f THEN <<>>
           ELSE IF "%B" \notin DOMAIN f THEN <<f["%A"]>>
           ELSE IF "%C" \notin DOMAIN f THEN <<f["%A"], f["%B"]>>
           ELSE <<f["%A"], f["%B"], f["%C"]>>

(* classification of one name by one pattern list: "none", "error", "entry" *)
Classify(patterns, name) ==
  LET r == Fields(patterns, name) IN
  IF ~r.ok THEN [k |-> "none"]
  ELSE IF HasTime(r.f) /\ ~ValidTime(r.f) THEN [k |-> "error"]
  ELSE [k |-> "entry", time |-> IF HasTime(r.f) THEN TimeOf(r.f) ELSE NoTime, tags |-> Tags(r.f)]

EntryOf(patterns, prefix, name) == LET c == Classify(patterns, name) IN [name |-> prefix \o name, time |-> c.time, tags |-> c.tags]
(* what a subset of plain files lists *)
FileMatches(patterns, names) == {EntryOf(patterns, "", n) : n \in {m \in names : Classify(patterns, m).k = "entry"}}
FileErrors(patterns, names) == {n \in names : Classify(patterns, n).k = "error"}
Touched(patterns, names) == {n \in names : Classify(patterns, n).k # "none"}
============================================================================
