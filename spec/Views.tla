------------------------------- MODULE Views -------------------------------
(* Regions of a divided surface: the parts of one triangle of a coarser level *)
(* ("super"), those of a triangle and all that touch it ("local"), or         *)
(* everything ("global"); and parameters of regions joined point by point.    *)
EXTENDS Mesh
RECURSIVE Number(_, _), Digits(_, _)
Number(t, path) == IF path = <<>> THEN t ELSE (4 * Number(t, SubSeq(path, 1, Len(path) - 1))) + path[Len(path)]
Digits(i, k) == IF k = 0 THEN <<>> ELSE Append(Digits(i \div 4, k - 1), i % 4)
Ident(i, k) == <<i \div Pow2(2 * k), Digits(i % Pow2(2 * k), k)>>
CornerSet(base, x, n) == LET c == Corners(base, x[1], x[2], n) IN {c[1], c[2], c[3]}
AllAt(k) == {Ident(i, k) : i \in 0 .. (20 * Pow2(2 * k)) - 1}
(* triangles of level v.at that make up the region *)
Region(base, v) == CASE v.kind = "global" -> AllAt(0)
                     [] v.kind = "super" -> {Ident(v.index, v.at)}
                     [] v.kind = "local" -> LET c == CornerSet(base, Ident(v.index, v.at), v.at) IN {x \in AllAt(v.at) : CornerSet(base, x, v.at) \cap c # {}}
LevelOf(v) == IF v.kind = "global" THEN 0 ELSE v.at
Above(x, k) == <<x[1], SubSeq(x[2], 1, k)>>
Active(base, v, ids) == LET r == Region(base, v) k == LevelOf(v) IN {i \in DOMAIN ids : Above(ids[i], k) \in r}
=============================================================================
