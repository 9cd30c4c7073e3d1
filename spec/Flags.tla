------------------------------- MODULE Flags -------------------------------
(* Quality-control flags of the analysis products (C13).                     *)
(* A flag word is an integer below 2^16; each pass owns some of its bits.     *)
(* Fields are sequences of cells; day files are records [d (day number), v].  *)
EXTENDS Cal, FiniteSets, TLC

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
DAY == 0          PRIORWIN == 1      POSTWIN == 2
PRIORCAL == 3     POSTCAL == 4       CLIMUNC == 5     LARGEUNC == 6
AREALLOW == 7     AREALHIGH == 8     EXTLOW == 9      EXTHIGH == 10
PERSISTENT == 11  MARINE == 12       LOCLOW == 13     LOCHIGH == 14   MISSINGCAL == 15
CalendarTarget == {DAY, PRIORWIN, POSTWIN}
OutlierBits == {AREALLOW, AREALHIGH, EXTLOW, EXTHIGH}

Bit(f, b) == (f \div P2[b + 1]) % 2 = 1
HasAll(f, T0) == \A b \in T0 : Bit(f, b)
HasSome(f, T0) == \E b \in T0 : Bit(f, b)
SetIf(f, b, c) == IF c /\ ~Bit(f, b) THEN f + P2[b + 1] ELSE f
ClearBit(f, b) == IF Bit(f, b) THEN f - P2[b + 1] ELSE f
BitSet(f) == {b \in 0..15 : Bit(f, b)}
WordOr(f, g) == LET RECURSIVE Or(_, _)
                    Or(acc, b) == IF b > 15 THEN acc ELSE Or(SetIf(acc, b, Bit(g, b)), b + 1)
                IN Or(f, 0)

(* files: sequence of [d, v]; at most one per day *)
FileAt(files, d) == LET S == {i \in 1..Len(files) : files[i].d = d} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Exists(files, d) == FileAt(files, d) # 0
Val(files, d, c) == files[FileAt(files, d)].v[c]

(* ---- window before and after: a neighbour is evidence unless all target bits are set *)
Constrained(files, d, c, T0) == Exists(files, d) /\ ~HasAll(Val(files, d, c), T0)
CountDays(S, files, c, T0) == Cardinality({d \in S : Constrained(files, d, c, T0)})
WindowCell(files, ref, c, range, thr, T0) ==
  LET prior == CountDays((ref - range)..(ref - 1), files, c, T0)
      post  == CountDays((ref + 1)..(ref + range), files, c, T0)
  IN SetIf(SetIf(Val(files, ref, c), PRIORWIN, prior < thr), POSTWIN, post < thr)
Cells(files, ref) == 1..Len(files[FileAt(files, ref)].v)
WindowFlags(files, ref, range, thr, T0) == [c \in Cells(files, ref) |-> WindowCell(files, ref, c, range, thr, T0)]

(* ---- the same calendar day in the other years; 29 February means 28 in common years *)
SameDay(ref, y) == LET m == MonthOf(ref) dd == DomOf(ref) n == MonthLen(y, m) IN DayNumber(y, m, IF dd > n THEN n ELSE dd)
CalendarCell(files, ref, c, y0, y1, T0) ==
  LET yr == YearOf(ref)
      ok(y) == Constrained(files, SameDay(ref, y), c, T0)
      prior == Cardinality({y \in y0..(yr - 1) : ok(y)})
      post  == Cardinality({y \in (yr + 1)..y1 : ok(y)})
      total == Cardinality({y \in y0..y1 : ok(y)})
      f == Val(files, ref, c)
  IN SetIf(SetIf(SetIf(f, PRIORCAL, prior < 1), POSTCAL, post < 1), MISSINGCAL, total < 3)
CalendarFlags(files, ref, y0, y1, T0) == [c \in Cells(files, ref) |-> CalendarCell(files, ref, c, y0, y1, T0)]
CalendarPossible(files, ref, y0, y1) == Exists(files, ref) /\ YearOf(ref) \in y0..y1

(* ---- outliers that persist *)
PersistCell(files, ref, c, range, thr) ==
  LET bad == Cardinality({d \in (ref - range)..(ref + range) : Exists(files, d) /\ HasSome(Val(files, d, c), OutlierBits)})
  IN SetIf(Val(files, ref, c), PERSISTENT, bad >= thr)
PersistFlags(files, ref, range, thr) == [c \in Cells(files, ref) |-> PersistCell(files, ref, c, range, thr)]

(* ---- merging: the areal-low bit of the second set stands for missing marine data *)
MergeCell(f, g) == WordOr(f, SetIf(ClearBit(g, AREALLOW), MARINE, Bit(g, AREALLOW)))

(* ---- masking: combos are <<set bits, bits that prevent it>> as words *)
MaskedBy(f, set, neg) == \A b \in 0..15 : (Bit(set, b) => Bit(f, b)) /\ ((Bit(neg, b) /\ ~Bit(set, b)) => ~Bit(f, b))
Masked(f, combos) == \E i \in 1..Len(combos) : MaskedBy(f, combos[i][1], combos[i][2])
DefaultCombos == << <<P2[16], P2[13]>>, <<P2[7], 0>>, <<P2[6], 0>>, <<P2[8], 0>>, <<P2[9], 0>>, <<P2[10], 0>>, <<P2[11], 0>>, <<P2[14], 0>>, <<P2[15], 0>> >>
CombosForYear(y) == IF y > 2012 THEN Append(DefaultCombos, <<P2[13], 0>>) ELSE DefaultCombos

(* ---- grids: n rows (latitude, reflected at the ends), m columns (longitude, periodic) *)
Reflect(i, n) == LET a == IF i < 1 THEN 2 - i ELSE i IN IF a > n THEN 2 * n - a ELSE a
Wrap(j, m) == ((j - 1) % m) + 1
At(x, i, j, m) == x[(i - 1) * m + j]
RECURSIVE SumFrom(_, _, _)
SumFrom(f, a, b) == IF a > b THEN 0 ELSE f[a] + SumFrom(f, a + 1, b)
(* sums over a square window of odd width w around every cell *)
WindowSums(x, n, m, w) ==
  LET h == w \div 2
      rows == TLCEval([k \in 1..(n * m) |-> LET i == (k - 1) \div m + 1 j == ((k - 1) % m) + 1
                                                 IN SumFrom([t \in (-h)..h |-> At(x, i, Wrap(j + t, m), m)], -h, h)])
  IN TLCEval([k \in 1..(n * m) |-> LET i == (k - 1) \div m + 1 j == ((k - 1) % m) + 1
                                        IN SumFrom([t \in (-h)..h |-> At(rows, Reflect(i + t, n), j, m)], -h, h)])
FlagWord(k, low, lb, high, hb) == (IF low[k] THEN P2[lb + 1] ELSE 0) + (IF high[k] THEN P2[hb + 1] ELSE 0)
(* mean above / below a threshold: x and thr in the same units *)
MeanAbove(x, n, m, w, thr, b) == LET s == WindowSums(x, n, m, w) IN [k \in 1..(n * m) |-> IF s[k] > thr * w * w THEN P2[b + 1] ELSE 0]
MeanBelow(x, n, m, w, thr, b) == LET s == WindowSums(x, n, m, w) IN [k \in 1..(n * m) |-> IF s[k] < thr * w * w THEN P2[b + 1] ELSE 0]
(* a flagged cell flags its 5x5 neighbourhood *)
Extend(mark, n, m) == LET s == WindowSums([k \in 1..(n * m) |-> IF mark[k] THEN 1 ELSE 0], n, m, 5) IN [k \in 1..(n * m) |-> s[k] > 0]
ExtremeFlags(x, n, m, lo, hi) ==
  LET low == Extend([k \in 1..(n * m) |-> x[k] < lo], n, m)
      high == Extend([k \in 1..(n * m) |-> x[k] > hi], n, m)
  IN [k \in 1..(n * m) |-> FlagWord(k, low, EXTLOW, high, EXTHIGH)]
(* quantiles of a bag given as a sequence: four times the value at k quarters *)
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Quart4(sorted, k) == LET pos == (Len(sorted) - 1) * k j == pos \div 4 r == pos % 4
                     IN IF r = 0 THEN 4 * sorted[j + 1] ELSE (4 - r) * sorted[j + 1] + r * sorted[j + 2]
(* areal check: windows of wi rows and wj columns, limit of four half quartile ranges *)
ArealFlags(x, n, m, wi, wj) ==
  LET hi == wi \div 2 hj == wj \div 2
      bag(k) == LET i == (k - 1) \div m + 1 j == ((k - 1) % m) + 1
                IN [t \in 1..(wi * wj) |-> At(x, Reflect(i - hi + (t - 1) \div wj, n), Wrap(j - hj + ((t - 1) % wj), m), m)]
      q == TLCEval([k \in 1..(n * m) |-> LET s == Sorted(bag(k)) IN <<Quart4(s, 1), Quart4(s, 2), Quart4(s, 3)>>])
      low == Extend([k \in 1..(n * m) |-> 4 * x[k] < q[k][1] - 4 * (q[k][2] - q[k][1])], n, m)
      high == Extend([k \in 1..(n * m) |-> 4 * x[k] > q[k][3] + 4 * (q[k][3] - q[k][2])], n, m)
  IN [k \in 1..(n * m) |-> FlagWord(k, low, AREALLOW, high, AREALHIGH)]
(* location thresholds from given quartiles *)
LocationFlags(x, q1, q2, q3) ==
  [k \in 1..Len(x) |-> (IF x[k] < q2[k] - 8 * (q2[k] - q1[k]) THEN P2[LOCLOW + 1] ELSE 0)
                     + (IF x[k] > q2[k] + 8 * (q3[k] - q2[k]) THEN P2[LOCHIGH + 1] ELSE 0)]
(* the coastal field used for marine cells: poles and seam are overwritten *)
Coast(x, n, m) == [k \in 1..(n * m) |-> LET i == (k - 1) \div m + 1 j == ((k - 1) % m) + 1
                                             jj == IF j = 1 THEN 2 ELSE IF j = m THEN m - 1 ELSE j
                                         IN IF i = 1 THEN 0 ELSE IF i = n THEN 100 ELSE At(x, i, jj, m)]
MarineStrict(x, n, m) == LET c == Coast(x, n, m) IN [k \in 1..(n * m) |-> IF c[k] = 100 THEN P2[MARINE + 1] ELSE 0]
ResetMarine(f, x, n, m) == LET c == Coast(x, n, m) IN [k \in 1..(n * m) |-> SetIf(ClearBit(f[k], MARINE), MARINE, c[k] > 95)]
(* days of a monthly batch *)
BatchDays(ref, k) == LET mi == MonthIndex(ref) + k
                         y == mi \div 12 mo == (mi % 12) + 1
                         dd == DomOf(ref)
                         a == DayNumber(y, mo, IF dd > MonthLen(y, mo) THEN MonthLen(y, mo) ELSE dd)
                         n1 == DomOf(a)
                         y2 == (mi + 1) \div 12 mo2 == ((mi + 1) % 12) + 1
                         b == DayNumber(y2, mo2, IF n1 > MonthLen(y2, mo2) THEN MonthLen(y2, mo2) ELSE n1)
                     IN [i \in 1..(b - a) |-> a + i - 1]
=============================================================================
