---------------------------- MODULE MC_Precision ----------------------------
(* Small lattices and the undivided sphere, their points and one direction of *)
(* change chosen step by step.                                                *)
EXTENDS Precision, TLC, Json
CONSTANTS Sizes, Kappas, Scales, Slopes, Alphas, Emit
VARIABLES g, ds, kap, tau, alpha
SlopesC == {-1, 0, 2}
SlopesT == {-1, 0, 1}
SizesC == {<<2>>, <<3>>, <<4>>, <<2, 2>>, <<3, 3>>}
SizesT == {<<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<2, 2>>, <<3, 3>>, <<4, 4>>, <<2, 3>>, <<3, 2>>, <<2, 2, 2>>}
vars == <<g, ds, kap, tau, alpha>>
Grids == {x \in UNION {{[sizes |-> s, wrap |-> w] : w \in [DOMAIN s -> BOOLEAN]} : s \in Sizes} : \A d \in DOMAIN x.sizes : x.wrap[d] => x.sizes[d] > 2}
Init == g = <<>> /\ ds = <<>> /\ kap = <<>> /\ tau = <<>> /\ alpha = 0
Choose1 == g = <<>> /\ (\E x \in Grids : g' = x /\ \E y \in [DOMAIN x.sizes -> Scales] : ds' = y) /\ alpha' \in Alphas /\ UNCHANGED <<kap, tau>>
N == CountAll(g.sizes)
(* all points alike but for the last chosen *)
Choose2 == g # <<>> /\ kap = <<>> /\ \E k \in Kappas, t \in {1, 2}, p \in {1, N}, dk \in Slopes, dt \in Slopes, more \in {0, 1} :
             /\ p <= N
             /\ kap' = [i \in 1 .. N |-> IF i = p THEN <<k + more, dk>> ELSE <<k, 0>>]
             /\ tau' = [i \in 1 .. N |-> IF i = p THEN <<t, dt>> ELSE <<t, 0>>]
             /\ UNCHANGED <<g, ds, alpha>>
Next == Choose1 \/ Choose2
Spec == Init /\ [][Next]_vars
Done == kap # <<>>
Sq(k) == TLCEval([i \in DOMAIN k |-> DMul(k[i], k[i])])
Q == LatticeQ(g, Sq(kap), ds, tau, 1, alpha)
Move(x, h) == TLCEval([i \in DOMAIN x |-> <<x[i][1] + (h * x[i][2]), 0>>])
At(h) == LatticeQ(g, Sq(Move(kap, h)), ds, Move(tau, h), 1, alpha)
Symmetric == Done => \E q \in {Q} : \A i, j \in 1 .. N : q[i][j] = q[j][i]
(* the slope is the one of the values: Q is a polynomial, of degree four (six for alpha two) in the parameter, so differences over one and two steps (and three) give its slope exactly *)
Slope == Done => \E q \in {Q}, a \in {At(1)}, b \in {At(-1)}, c \in {At(2)}, d \in {At(-2)}, e \in {At(3)}, f \in {At(-3)} :
  \A i, j \in 1 .. N : 60 * q[i][j][2] = (45 * (a[i][j][1] - b[i][j][1])) - (9 * (c[i][j][1] - d[i][j][1])) + (e[i][j][1] - f[i][j][1])
(* rows of the operator add up to the square of kappa where every neighbour is there *)
Balance == Done => \E K \in {Operator(g, Sq(kap), ds)} :
  \A i \in 1 .. N : LET total == DRow(K, [x \in 1 .. N |-> [y \in 1 .. N |-> DC(1)]], i, 1, N)[1] free == {d \in DOMAIN g.sizes : ~g.wrap[d] /\ Place(g.sizes, i - 1)[d] \in {0, g.sizes[d] - 1}} IN
    /\ total >= kap[i][1] * kap[i][1]
    /\ (free = {} => total = kap[i][1] * kap[i][1])
(* numbers of nodes and places are one to one, first dimension fastest *)
Numbering == g # <<>> /\ ~Done => /\ Cardinality({Place(g.sizes, i) : i \in 0 .. N - 1}) = N
                         /\ (\A i \in 0 .. N - 2 : Place(g.sizes, i)[1] + 1 = Place(g.sizes, i + 1)[1] \/ Place(g.sizes, i + 1)[1] = 0)
(* weights of the linear basis with the span of the spacing add up to one between nodes, everywhere on a cycle *)
RECURSIVE Sum1(_, _, _)
Sum1(d, x, k) == IF k < 0 THEN 0 ELSE Linear(Gap(g.sizes[d], g.wrap[d], x, k), 4) + Sum1(d, x, k - 1)
Unity == g # <<>> /\ ~Done => \A d \in DOMAIN g.sizes : \A x \in (IF g.wrap[d] THEN -9 .. 8 * (g.sizes[d] + 1) ELSE 0 .. 8 * (g.sizes[d] - 1)) : Sum1(d, x, g.sizes[d] - 1) = F
(* the greatest weight is at the node itself *)
Peak == g = <<>> => \A s \in 4 .. 12 : Wendland(0, s) = F /\ Wendland(8 * s, s) = 0 /\ \A x \in 0 .. 7 * s : Wendland(x, s) >= Wendland(x + 1, s)
Export == IF Emit /\ Done THEN PrintT("@@SC " \o ToJson([sizes |-> g.sizes, wrap |-> g.wrap, ds |-> ds, kap |-> kap, tau |-> tau, alpha |-> alpha])) ELSE TRUE
=============================================================================
