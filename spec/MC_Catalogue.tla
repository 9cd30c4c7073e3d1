---------------------------- MODULE MC_Catalogue ----------------------------
(* Histories of a small catalogue: files come and go, a first operation A     *)
(* turns daily inputs into daily results, a second operation B reads them      *)
(* (daily, or all at once), C tries to write where A already writes, X is a     *)
(* different reader of the raw inputs added later. Checked in every reachable    *)
(* state: own inputs, outputs declared once, readers get exactly the writer's    *)
(* path, batches cover all runs once, updates keep history.                      *)
EXTENDS Catalogue, Json
CONSTANTS NDays, MaxBuilds, Emit
VARIABLES present, cat, log
vars == <<present, cat, log>>
Day0 == 55150                                   (* 2000-12-30 *)
Days == 0..(NDays - 1)
InPattern == << <<"in_", "%Y", "%m", "%d">> >>
OutPattern(x) == << <<x, "%Y", "%m", "%d">> >>
FileOf(k) == Render(InPattern[1], T(Day0 + k, 0, 0))
Daily == [kind |-> "daily", start |-> T(Day0, 0, 0), end |-> T(Day0 + NDays - 1, 0, 0), n |-> 0]
Once == [kind |-> "once", start |-> T(0, 0, 0), end |-> T(0, 0, 0), n |-> 0]
Annual == [kind |-> "annual", start |-> T(Day0, 0, 0), end |-> T(Day0 + NDays - 1, 0, 0), n |-> 0]
P(key, kind, ds, pol) == [key |-> key, kind |-> kind, ds |-> ds, sub |-> 0, policy |-> pol, value |-> ""]
Out(name, pat) == [name |-> name, path |-> "", subsets |-> << pat >>]
OpA(pol) == [name |-> "A", target |-> "vrec.rec.run", step |-> Daily, newdatasets |-> << Out("mid", OutPattern("m")) >>,
             params |-> << P("i", "inputfile", "raw", pol), P("t", "steptime", "", ""), P("o", "output", "mid", "") >>]
OpB(pol) == [name |-> "B", target |-> "vrec.rec.run2", step |-> Daily, newdatasets |-> << Out("fin", OutPattern("f")) >>,
             params |-> << P("i", "inputfile", "mid", pol), P("n", "stepindex", "", ""), P("o", "output", "fin", "") >>]
OpL(pol) == [name |-> "L", target |-> "vrec.rec.Module", step |-> Once, newdatasets |-> << Out("one", << <<"one">> >>) >>,
             params |-> << P("i", "inputlist", "mid", pol), P("o", "output", "one", "") >>]
OpY(pol) == [name |-> "Y", target |-> "vrec.rec.Module2", step |-> Annual, newdatasets |-> << Out("yr", OutPattern("d")) >>,
             params |-> << P("i", "annualdays", "mid", pol), P("d", "batchdayindices", "", ""), P("o", "outputdays", "yr", "") >>]
OpC == [name |-> "C", target |-> "vrec.rec.run2", step |-> Daily, newdatasets |-> <<>>, params |-> << P("o", "output", "mid", "") >>]
Pols == {"not_allowed", "allowed", "skip"}
Raw == [name |-> "raw", path |-> "$/raw", subsets |-> << InPattern >>]
Descs == {[datasets |-> <<Raw>>, operations |-> <<OpA(p)>>] : p \in Pols}
         \cup {[datasets |-> <<Raw>>, operations |-> <<OpA(p), OpB(q)>>] : p \in Pols, q \in Pols}
         \cup {[datasets |-> <<>>, operations |-> <<OpB(q)>>] : q \in Pols}
         \cup {[datasets |-> <<>>, operations |-> <<OpL(q)>>] : q \in Pols}
         \cup {[datasets |-> <<>>, operations |-> <<OpY(q)>>] : q \in Pols}
         \cup {[datasets |-> <<>>, operations |-> <<OpC>>]}
NoCat == [ex |-> FALSE, ds |-> <<>>, ops |-> <<>>]
Init == present \in SUBSET Days /\ cat = NoCat /\ log = << [a |-> "files", days |-> present] >>
Builds == Cardinality({i \in 1..Len(log) : log[i].a = "build"})
Listed(desc) == [k \in 1..Len(desc.datasets) |-> << SetSeq(EntriesFor(InPattern, {FileOf(d) : d \in present})) >>]
BuildA == /\ Builds < MaxBuilds
          /\ \E desc \in Descs, mode \in {"new", "update"} :
               /\ mode = "new" => ~cat.ex
               /\ mode = "update" => cat.ex
               /\ LET r == Build(cat, desc, "", "$/o", "1", Listed(desc))
                  IN cat' = IF r.ok THEN [ex |-> TRUE, ds |-> r.ds, ops |-> r.ops] ELSE cat
               /\ log' = Append(log, [a |-> "build", desc |-> desc, mode |-> mode])
          /\ UNCHANGED present
ChangeFiles == /\ log[Len(log)].a = "build" /\ Builds < MaxBuilds
               /\ present' \in {Days, {}} \ {present}
               /\ log' = Append(log, [a |-> "files", days |-> present'])
               /\ UNCHANGED cat
Done == /\ Builds = MaxBuilds /\ log[Len(log)].a # "end"
        /\ log' = Append(log, [a |-> "end"]) /\ UNCHANGED <<present, cat>>
        /\ IF Emit THEN PrintT("@@SC " \o ToJson([log |-> log])) ELSE TRUE
Next == BuildA \/ ChangeFiles \/ Done

OpNamed(n) == SelectSeq(cat.ops, LAMBDA o : o.name = n)
ValueOf(run, key) == run[CHOOSE k \in 1..Len(run) : run[k].key = key].val
DayIn(i, prefix) == "$/o/" \o Render(<<prefix, "%Y", "%m", "%d">>, T(Day0 + i, 0, 0))
RawOf(i) == "$/raw/" \o FileOf(i)
InputsOfOwnStep ==
  \A k \in 1..Len(OpNamed("A")) : LET o == OpNamed("A")[k] IN
    \A r \in 1..Len(o.runs) :
       /\ ValueOf(o.runs[r], "i") \in {Exactly(<<RawOf(o.steps[r])>>), Exactly(<<None>>)}
       /\ ValueOf(o.runs[r], "o") = Exactly(<<DayIn(o.steps[r], "m")>>)
       /\ ValueOf(o.runs[r], "t") = Exactly(<<TimeText(T(Day0 + o.steps[r], 0, 0))>>)
(* written to "mid" by an operation before the k-th: by A, or by C when A had nothing to do *)
Writer(i, k) == \E j \in 1..(k - 1) : cat.ops[j].name \in {"A", "C"} /\ \E r \in 1..Len(cat.ops[j].runs) : cat.ops[j].steps[r] = i
ReadersGetWritersPath ==
  \A k \in 1..Len(cat.ops) : LET o == cat.ops[k] IN
     o.name = "B" => \A r \in 1..Len(o.runs) : ValueOf(o.runs[r], "i") = Exactly(<<IF Writer(o.steps[r], k) THEN DayIn(o.steps[r], "m") ELSE None>>)
ListReadersGetAll ==
  \A k \in 1..Len(cat.ops) : LET o == cat.ops[k] IN
     o.name = "L" => \A r \in 1..Len(o.runs) : LET v == ValueOf(o.runs[r], "i") W == {j \in Days : Writer(j, k)} IN
        IF v.m = "bag" THEN v.v = {DayIn(i, "m") : i \in W} ELSE v = Exactly(<<None>>) /\ W = {}
OutputsOnce ==                                  (* no two runs of different operations own the same path *)
  \A i, j \in 1..Len(cat.ops) : i < j =>
    \A r \in 1..Len(cat.ops[i].runs), s \in 1..Len(cat.ops[j].runs) :
       \A a \in 1..Len(cat.ops[i].runs[r]), b \in 1..Len(cat.ops[j].runs[s]) :
          (cat.ops[i].runs[r][a].key = "o" /\ cat.ops[j].runs[s][b].key = "o") =>
            \/ DsIndex(cat.ds, "mid") # 0 /\ Cardinality({k \in 1..Len(cat.ops) : cat.ops[k].name \in {cat.ops[i].name}}) > 1   (* the same descriptor added twice *)
            \/ cat.ops[i].runs[r][a].val # cat.ops[j].runs[s][b].val \/ cat.ops[i].runs[r][a].val.v = <<>>
BatchesCover == \A k \in 1..Len(cat.ops), size \in 1..(NDays + 1) :
    LET n == Len(cat.ops[k].runs)
        slots == {<<b, i>> : b \in 0..(Batches(n, size) - 1), i \in 0..(size - 1)}
    IN /\ \A x \in 0..(n - 1) : Cardinality({s \in slots : s[1] * size + s[2] = x}) = 1
       /\ n > 0 => \E i \in 0..(size - 1) : (Batches(n, size) - 1) * size + i = n - 1      (* no empty batch *)
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
PrefixDs(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i].name = b[i].name /\ a[i].path = b[i].path
                     /\ \A j \in 1..Len(a[i].subsets) : Prefix(a[i].subsets[j].entries, b[i].subsets[j].entries)
HistoryKept == [][Prefix(cat.ops, cat'.ops) /\ PrefixDs(cat.ds, cat'.ds)]_vars
=============================================================================
