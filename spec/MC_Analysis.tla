---------------------------- MODULE MC_Analysis ----------------------------
(* The update protocol in small steps, with observations as tokens: which    *)
(* observation entered which solution how often, net of which versions of    *)
(* which components.  Sources are taken in every order; the result of an     *)
(* update must not show it.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NTimes, MaxActs, MaxComps, Emit
T == 1 .. NTimes
(* sources of every time: sets of observations, possibly empty *)
Sources(t) == IF t = 1 THEN {{"a1", "a2"}, {"b1"}} ELSE IF t = 2 THEN {{}, {"c2"}} ELSE {{}}
ObsAt(t) == UNION Sources(t)
VARIABLES Kinds, ver, meas, sol, busy, acc, left, log
vars == <<Kinds, ver, meas, sol, busy, acc, left, log>>
C == 1 .. Len(Kinds)
Nothing == [o \in {} |-> 0]
Key(c, t) == IF Kinds[c] = "st" THEN 0 ELSE t
Others(c) == C \ {c}
Init ==
  /\ Kinds \in UNION {[1 .. n -> {"st", "sp", "dl"}] : n \in 1 .. MaxComps}
  /\ ver = [c \in C |-> [t \in 0 .. NTimes |-> 0]]
  /\ meas = [c \in C |-> [t \in T |-> Nothing]]
  /\ sol = [c \in C |-> [t \in 0 .. NTimes |-> Nothing]]
  /\ busy = <<>> /\ acc = Nothing /\ left = {} /\ log = <<>>
(* a token: how often the observation is in, and the versions subtracted *)
Net(c, t) == [d \in Others(c) |-> ver[d][Key(d, t)]]
AddTokens(b, s, c, t) == [o \in DOMAIN b \cup s |-> IF o \in DOMAIN b THEN IF o \in s THEN [b[o] EXCEPT !.n = @ + 1] ELSE b[o] ELSE [n |-> 1, net |-> Net(c, t)]]
Begin(c, t) ==
  /\ busy = <<>> /\ Len(log) < MaxActs
  /\ busy' = <<c, t>> /\ left' = Sources(t) /\ acc' = Nothing
  /\ log' = Append(log, [a |-> "time", c |-> c, t |-> t])
  /\ UNCHANGED <<Kinds, ver, meas, sol>>
Take(s) ==
  /\ busy # <<>> /\ s \in left
  /\ left' = left \ {s} /\ acc' = AddTokens(acc, s, busy[1], busy[2])
  /\ UNCHANGED <<Kinds, ver, meas, sol, busy, log>>
End ==
  /\ busy # <<>> /\ left = {}
  /\ LET c == busy[1] t == busy[2] IN
     IF Kinds[c] = "sp"
     THEN /\ IF DOMAIN acc = {} THEN UNCHANGED <<sol, ver>>
             ELSE sol' = [sol EXCEPT ![c][t] = acc] /\ ver' = [ver EXCEPT ![c][t] = @ + 1]
          /\ UNCHANGED meas
     ELSE meas' = [meas EXCEPT ![c][t] = acc] /\ UNCHANGED <<sol, ver>>
  /\ busy' = <<>> /\ acc' = Nothing /\ UNCHANGED <<Kinds, left, log>>
Union2(f) == [o \in UNION {DOMAIN f[t] : t \in T} |-> f[CHOOSE t \in T : o \in DOMAIN f[t]][o]]
Solve(c) ==
  /\ busy = <<>> /\ Len(log) < MaxActs /\ Kinds[c] # "sp"
  /\ IF Kinds[c] = "st" THEN sol' = [sol EXCEPT ![c][0] = Union2(meas[c])] /\ ver' = [ver EXCEPT ![c][0] = @ + 1]
     ELSE sol' = [sol EXCEPT ![c] = [t \in 0 .. NTimes |-> IF t = 0 THEN Nothing ELSE meas[c][t]]] /\ ver' = [ver EXCEPT ![c] = [t \in 0 .. NTimes |-> IF t \in T /\ DOMAIN meas[c][t] # {} THEN ver[c][t] + 1 ELSE ver[c][t]]]
  /\ log' = Append(log, [a |-> "solve", c |-> c, t |-> 0])
  /\ UNCHANGED <<Kinds, meas, busy, acc, left>>
Next == (\E c \in C, t \in T : Begin(c, t)) \/ (\E s \in left : Take(s)) \/ End \/ (\E c \in C : Solve(c))
Spec == Init /\ [][Next]_vars

Once == \A c \in C : /\ \A t \in 0 .. NTimes : \A o \in DOMAIN sol[c][t] : sol[c][t][o].n = 1
                     /\ \A t \in T : \A o \in DOMAIN meas[c][t] : meas[c][t][o].n = 1
NotItself == \A c \in C : \A t \in T : \A o \in DOMAIN meas[c][t] : DOMAIN meas[c][t][o].net = Others(c)
OwnTimes == \A c \in C : Kinds[c] # "st" => \A t \in T : DOMAIN sol[c][t] \subseteq ObsAt(t)
(* whatever the order of sources, a completed time holds all of its observations, net of the same versions *)
Complete == \A c \in C : \A t \in T : DOMAIN meas[c][t] \in {{}, ObsAt(t)} /\ \A o, q \in DOMAIN meas[c][t] : meas[c][t][o].net = meas[c][t][q].net
OnlyOne == [][\A d \in C : sol'[d] # sol[d] => (\A e \in C \ {d} : sol'[e] = sol[e] /\ meas'[e] = meas[e])]_vars
Export == IF Emit /\ busy = <<>> /\ Len(log) = MaxActs THEN PrintT("@@SC " \o ToJson([kinds |-> Kinds, log |-> log])) ELSE TRUE
=============================================================================
