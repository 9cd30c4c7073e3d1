------------------------------- MODULE Merge -------------------------------
(* Merging the daily products of several sources.  A source has a primary    *)
(* and an ancillary file; values are the integers of the packed variables.   *)
EXTENDS Integers, Sequences, FiniteSets
NA == -99999
Abs(x) == IF x < 0 THEN -x ELSE x
SumOf(f, D) == LET RECURSIVE g(_)
                   g(d) == IF d = {} THEN 0 ELSE LET x == CHOOSE x \in d : TRUE IN f[x] + g(d \ {x})
               IN g(D)
(* pairs of n sources in the order of the correlation list *)
PairIndex(n, i, j) == (((i - 1) * n) - (((i - 1) * i) \div 2)) + (j - i)
(* m is the rounded mean of the values that are there *)
MeanOk(vs, m) ==
  LET P == {i \in DOMAIN vs : vs[i] # NA} n == Cardinality(P)
  IN IF P = {} THEN m = NA ELSE m # NA /\ 2 * Abs((n * m) - SumOf(vs, P)) <= n
(* m is the rounded propagated uncertainty: m*m = (1/n^2) sum r_ij u_i u_j; correlations r in percent *)
PropOk(us, rs, m) ==
  LET P == {i \in DOMAIN us : us[i] # NA} n == Cardinality(P) k == Len(us)
      pairs == {p \in P \X P : p[1] < p[2]}
      T == (100 * SumOf([i \in P |-> us[i] * us[i]], P)) + (2 * SumOf([p \in pairs |-> rs[PairIndex(k, p[1], p[2])] * us[p[1]] * us[p[2]]], pairs))
  IN IF P = {} THEN m = NA
     ELSE /\ m >= 0
          /\ 4 * T <= n * n * ((20 * m) + 11) * ((20 * m) + 11)
          /\ (20 * m > 11 => 4 * T >= n * n * ((20 * m) - 11) * ((20 * m) - 11))
(* correlations between the sources kept (increasing positions in the full list) *)
Keep(n, rs, kept) == [q \in 1 .. ((Len(kept) * (Len(kept) - 1)) \div 2) |->
  LET p == CHOOSE p \in (1 .. Len(kept)) \X (1 .. Len(kept)) : p[1] < p[2] /\ PairIndex(Len(kept), p[1], p[2]) = q
  IN rs[PairIndex(n, kept[p[1]], kept[p[2]])]]
=============================================================================
