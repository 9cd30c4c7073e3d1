------------------------------- MODULE T_C20 -------------------------------
EXTENDS TraceBase, Combination
VARIABLES tree, leaves, par, nobs
vars == <<tree, leaves, par, nobs>>
Init == TraceInit /\ tree = [sub |-> <<>>] /\ leaves = <<>> /\ par = <<>> /\ nobs = 0
L == Leaves(tree)
NL == [i \in DOMAIN leaves |-> leaves[i].n]
KL == [i \in DOMAIN leaves |-> leaves[i].k]
Tol == 2 * Len(leaves) + 2
Set(s) == {s[i] : i \in DOMAIN s}
Pow(j) == LET f[i \in 0 .. j] == IF i = 0 THEN 1 ELSE 2 * f[i - 1] IN f[j]
(* a matrix given as rows of integers *)
Entries(rows) == {e \in UNION {{<<r, c, S * rows[r][c]>> : c \in DOMAIN rows[r]} : r \in DOMAIN rows} : e[3] # 0}
Near(a, b) == LET at(m, r, c) == LET h == {e \in m : e[1] = r /\ e[2] = c} IN IF h = {} THEN 0 ELSE (CHOOSE e \in h : TRUE)[3]
                  places == {<<e[1], e[2]>> : e \in a \cup b}
              IN \A p \in places : Abs(at(a, p[1], p[2]) - at(b, p[1], p[2])) <= Tol
(* seasonal patterns at quarter q of a year: constant, then sine and cosine of every order *)
Sin(q) == CASE q % 4 = 1 -> 1 [] q % 4 = 3 -> -1 [] OTHER -> 0
Pattern(lf) == (IF lf.mean THEN <<1>> ELSE <<>>) \o Cat([h \in 1 .. lf.harmonics |-> <<Sin(h * lf.quarter), Sin((h * lf.quarter) + 1)>>])
(* parameters of the c-th seasonal pattern *)
Harmonic(lf, c) == ((c - 1) + (IF lf.mean THEN 1 ELSE 0)) \div 2
(* cosine and sine of twice and four times a latitude (multiples of 45 degrees) *)
LatRow(lat) == LET e == (lat \div 45) + 8 IN <<Sin(e + 1), Sin(e), Sin((2 * e) + 1), 0>>
(* design of a leaf; own holds what the leaf alone gives where it is not modelled *)
Rows(lf) == CASE lf.kind = "toy" -> lf.rows
  [] lf.kind = "grand" -> [o \in 1 .. nobs |-> <<1>>]
  [] lf.kind = "bias" -> [o \in 1 .. nobs |-> [c \in 1 .. lf.n |-> IF <<o - 1, c - 1>> \in Set(lf.effect) THEN 1 ELSE 0]]
  [] lf.kind = "harm" -> [o \in 1 .. nobs |-> LatRow(lf.lat[o])]
Modelled(lf) == lf.kind \in {"toy", "grand", "bias", "harm"}
Slope(lf, x) == [c \in DOMAIN x |-> IF lf.nl /\ x[c] < 0 THEN 2 ELSE 1]
Dot(a, b) == Sum([i \in DOMAIN a |-> a[i] * b[i]])
AbsRow(r) == [i \in DOMAIN r |-> Abs(r[i])]
Predict(lf, x, own, rect) ==
  IF Modelled(lf) THEN LET s == Slope(lf, x) IN [o \in 1 .. nobs |-> S * Dot(IF rect THEN AbsRow(Rows(lf)[o]) ELSE Rows(lf)[o], [c \in DOMAIN x |-> IF rect THEN x[c] ELSE s[c] * x[c]])]
  ELSE IF lf.kind = "seasonal"
  THEN LET t == Pattern(lf) m == lf.n \div Len(t)
       IN (* own.f[c]: the spatial pattern with the c-th block of the state *)
          [o \in 1 .. nobs |-> Sum([c \in DOMAIN t |-> (IF rect THEN Abs(t[c]) ELSE t[c]) * own.f[c][o]])]
  ELSE own.f
Jacobian(lf, x, own) ==
  IF Modelled(lf) THEN LET s == Slope(lf, x) IN Entries([o \in 1 .. nobs |-> [c \in DOMAIN x |-> Rows(lf)[o][c] * s[c]]])
  ELSE IF lf.kind = "seasonal"
  THEN LET t == Pattern(lf) m == lf.n \div Len(t) IN UNION {{<<e[1], e[2] + ((c - 1) * m), t[c] * e[3]>> : e \in Set(own.j)} : c \in {c \in DOMAIN t : t[c] # 0}}
  ELSE Set(own.j)
(* prior: a sum of matrices, one for every parameter, of weight 2^-j *)
Weighted(mats, w) == LET n == {e \in UNION {{<<r, c>> : r \in DOMAIN m, c \in DOMAIN m} : m \in Set(mats)} : TRUE}
  IN {e \in {<<p[1], p[2], Sum([k \in DOMAIN mats |-> w[k] * mats[k][p[1]][p[2]]])>> : p \in n} : e[3] # 0}
Ident(n) == [r \in 1 .. n |-> [c \in 1 .. n |-> IF r = c THEN 1 ELSE 0]]
Unit(n, k) == [r \in 1 .. n |-> [c \in 1 .. n |-> IF r = c /\ c = k THEN 1 ELSE 0]]
Mats(lf) == CASE lf.kind = "toy" -> lf.mats
  [] lf.kind = "harm" -> [k \in 1 .. 4 |-> Unit(4, k)]
  [] OTHER -> <<Ident(lf.n)>>
Weight(j) == S * Pow(-j)
Precision(lf, p, own) ==
  IF Modelled(lf) THEN Weighted(Mats(lf), [k \in DOMAIN p |-> Weight(p[k])])
  ELSE IF lf.kind = "seasonal"
  THEN LET t == Pattern(lf) m == lf.n \div Len(t) IN UNION {Shift(Set(own.q[Harmonic(lf, c) + 1]), (c - 1) * m, (c - 1) * m) : c \in DOMAIN t}
  ELSE Set(own.q)
Derivative(lf, p, k, own) ==
  IF Modelled(lf) THEN Weighted(Mats(lf), [i \in DOMAIN p |-> IF i = k THEN -2 * Weight(p[i]) ELSE 0])
  ELSE IF lf.kind = "seasonal"
  THEN LET t == Pattern(lf) m == lf.n \div Len(t) IN UNION {Shift(Set(own.d), (c - 1) * m, (c - 1) * m) : c \in {c \in DOMAIN t : Harmonic(lf, c) = (k - 1) \div 2}}
  ELSE Set(own.d)
Top(of(_)) == Sizes(tree, of)
NOf(i) == leaves[i].n
KOf(i) == leaves[i].k
Nonlinear == \E i \in DOMAIN leaves : leaves[i].nl
OwnOk(x, own) == \A i \in DOMAIN leaves : ~Modelled(leaves[i]) => own[i].x = Block(x, NL, i)

Combine == Is("combine") /\ LET e == Ev.in o == Ev.out IN
  /\ tree' = e.tree /\ leaves' = e.leaves /\ nobs' = e.nobs /\ par' = e.params
  /\ (LET ls == Leaves(e.tree) ns == [i \in DOMAIN e.leaves |-> e.leaves[i].n] ks == [i \in DOMAIN e.leaves |-> e.leaves[i].k]
          nf(i) == e.leaves[i].n kf(i) == e.leaves[i].k tn == Sizes(e.tree, nf) tk == Sizes(e.tree, kf)
          nl == \E i \in DOMAIN e.leaves : e.leaves[i].nl
      IN /\ ls = [i \in DOMAIN e.leaves |-> i]
         /\ o.nstate = Sum(ns) /\ o.nprior = Sum(ns) /\ o.nonlinear = nl /\ o.enonlinear = nl
         /\ o.params = e.params /\ Len(o.params) = Sum(ks)
         /\ o.ranges = [i \in DOMAIN tk |-> IF tk[i] = 0 THEN <<0, 0>> ELSE <<Off(tk, i), tk[i]>>]
         /\ o.init = IF nl THEN Cat([i \in DOMAIN e.leaves |-> IF e.leaves[i].nl THEN e.leaves[i].init ELSE [c \in 1 .. e.leaves[i].n |-> 0]]) ELSE <<>>) = TRUE
SetPar == Is("set") /\ LET e == Ev.in o == Ev.out fits == Len(e.values) = Sum(KL) IN
  /\ (o.ok = fits) = TRUE
  /\ par' = (IF fits THEN e.values ELSE par)
  /\ (o.params = par') = TRUE
  /\ (o.own = Split(par', KL)) = TRUE
  /\ UNCHANGED <<tree, leaves, nobs>>
Function == Is("predict") /\ LET e == Ev.in o == Ev.out IN
  /\ (/\ OwnOk(e.x, e.own)
      /\ o.parts = Split(e.x, Top(NOf)) /\ o.pparts = o.parts
      /\ Len(o.f) = nobs
      /\ LET ps == [i \in DOMAIN leaves |-> Predict(leaves[i], Block(e.x, NL, i), e.own[i], e.rect)]
         IN \A r \in 1 .. nobs : Abs(o.f[r] - Sum([i \in DOMAIN leaves |-> ps[i][r]])) <= Tol) = TRUE
  /\ UNCHANGED vars
SlopeAt == Is("jacobian") /\ LET e == Ev.in o == Ev.out IN
  /\ (/\ OwnOk(e.x, e.own) /\ o.shape = <<nobs, Sum(NL)>>
      /\ LET j == Beside([i \in DOMAIN leaves |-> Jacobian(leaves[i], Block(e.x, NL, i), e.own[i])], NL)
         IN Near(Set(o.j), j) /\ (~Nonlinear => Near(Set(o.m), j))) = TRUE
  /\ UNCHANGED vars
Prior == Is("prior") /\ LET e == Ev.in o == Ev.out IN
  /\ (/\ o.shape = <<Sum(NL), Sum(NL)>> /\ \A i \in DOMAIN leaves : ~Modelled(leaves[i]) => e.own[i].p = Block(par, KL, i)
      /\ Near(Set(o.q), Diagonal([i \in DOMAIN leaves |-> Precision(leaves[i], Block(par, KL, i), e.own[i])], NL))) = TRUE
  /\ UNCHANGED vars
Change == Is("derivative") /\ LET e == Ev.in o == Ev.out i == Owner(KL, e.k) IN
  /\ (/\ o.shape = <<Sum(NL), Sum(NL)>> /\ (~Modelled(leaves[i]) => e.own.p = Block(par, KL, i))
      /\ LET d == Derivative(leaves[i], Block(par, KL, i), e.k - Off(KL, i), e.own)
         IN Near(Set(o.d), Shift(d, Off(NL, i), Off(NL, i)))) = TRUE
  /\ UNCHANGED vars
(* what a leaf alone predicts changes with its state as its own design says *)
Bilinear == Is("bilinear") /\ LET e == Ev.in o == Ev.out IN
  /\ (\A c \in DOMAIN o.step : \A r \in 1 .. nobs :
        LET h == {x \in Set(o.j) : x[1] = r /\ x[2] = c} IN Abs(o.step[c][r] - o.f[r] - (IF h = {} THEN 0 ELSE (CHOOSE x \in h : TRUE)[3])) <= 3) = TRUE
  /\ UNCHANGED vars
Stored == Is("stored") /\ (Ev.out.params = par) = TRUE /\ UNCHANGED vars
(* named groups of parameters are laid out in the order of their names *)
General == Is("general") /\ (LET all == Cat([i \in DOMAIN Ev.in.parts |-> Ev.in.parts[i].v]) IN Ev.out.params = all /\ Ev.out.loaded = all /\ Ev.out.parts = Ev.in.parts) = TRUE /\ UNCHANGED vars
(* descriptors name known covariates only *)
Known == {"latitude_harmonics", "altitude", "coastal_influence"}
Check == Is("keys") /\ (Ev.out.ok = (Set(Ev.in.keys) \subseteq Known)) = TRUE /\ UNCHANGED vars
Next == Combine \/ SetPar \/ Function \/ SlopeAt \/ Prior \/ Change \/ Bilinear \/ Stored \/ Check \/ General
=============================================================================
