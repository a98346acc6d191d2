-------------------------------- MODULE Split --------------------------------
(* Where streams are split (H01), and the tree that chunks are stored as (H02).
   P: [w window size, off character offset, bits, half (bits of each half of the sum), max (largest
   chunk), fanbits].  A byte is a natural number.  *)
EXTENDS Integers, Sequences, SequencesExt

Pow2(n) == 2^n
Lo(a, b) == IF a <= b THEN a ELSE b

\* ---- The sum of a window (at most P.w bytes, the last ones of a chunk so far)
RECURSIVE Sum1(_, _), Sum2(_, _, _)
Sum1(win, k) == IF k = 0 THEN 0 ELSE win[k] + Sum1(win, k - 1)
\* the newest byte counts once, the oldest w times
Sum2(win, k, n) == IF k = 0 THEN 0 ELSE (n - k + 1) * win[k] + Sum2(win, k - 1, n)
S1(P, win) == P.w * P.off + Sum1(win, Len(win))
S2(P, win) == P.w * (P.w - 1) * P.off + Sum2(win, Len(win), Len(win))

M2(P) == Pow2(Lo(P.bits, P.half))
M1(P) == IF P.bits > P.half THEN Pow2(P.bits - P.half) ELSE 1
\* It's a split point if the low bits are all ones
Hit(P, s1, s2) == s2 % M2(P) = M2(P) - 1 /\ s1 % M1(P) = M1(P) - 1
Bit(P, s1, s2, n) == IF n < P.half THEN (s2 \div Pow2(n)) % 2
                     ELSE IF n < 2 * P.half THEN (s1 \div Pow2(n - P.half)) % 2 ELSE 0
\* The number of further ones, after a bit that's ignored
RECURSIVE Ones(_, _, _, _)
Ones(P, s1, s2, n) == IF Bit(P, s1, s2, n) = 1 THEN 1 + Ones(P, s1, s2, n + 1) ELSE 0
Extra(P, s1, s2) == Ones(P, s1, s2, P.bits + 1)
Level(P, s1, s2) == Extra(P, s1, s2) \div P.fanbits

Window(P, data, from, to) == SubSeq(data, IF to - from + 1 > P.w THEN to - P.w + 1 ELSE from, to)

\* ---- What a chunking of data is: chunks [n |-> length, level |-> level]
RECURSIVE Ends(_, _)
Ends(cs, k) == IF k = 0 THEN 0 ELSE cs[k].n + Ends(cs, k - 1)
IsChunking(P, data, cs) ==
  /\ Ends(cs, Len(cs)) = Len(data)
  /\ \A k \in DOMAIN cs :
       LET from == Ends(cs, k - 1) + 1
           to == Ends(cs, k)
           At(p) == LET win == Window(P, data, from, p) IN <<S1(P, win), S2(P, win)>>
           e == At(to)
       IN /\ cs[k].n \in 1..P.max
          /\ \A p \in from..(to - 1) : ~Hit(P, At(p)[1], At(p)[2])
          /\ IF Hit(P, e[1], e[2]) THEN cs[k].level = Level(P, e[1], e[2])
             ELSE cs[k].level = 0 /\ (cs[k].n = P.max \/ to = Len(data))

\* ---- The same, efficiently: the sums roll
Start(P) == [s1 |-> P.w * P.off, s2 |-> P.w * (P.w - 1) * P.off, n |-> 0]
Roll(P, st, x, drop) ==
  LET s1 == st.s1 + x - drop
  IN [s1 |-> s1, s2 |-> st.s2 + s1 - P.w * (drop + P.off), n |-> st.n + 1]
Chunks(P, data) ==
  LET Step(acc, k) ==
        LET st == Roll(P, acc.st, data[k], IF acc.st.n >= P.w THEN data[k - P.w] ELSE 0)
        IN IF Hit(P, st.s1, st.s2)
           THEN [st |-> Start(P), out |-> Append(acc.out, [n |-> st.n, level |-> Level(P, st.s1, st.s2)])]
           ELSE IF st.n = P.max THEN [st |-> Start(P), out |-> Append(acc.out, [n |-> st.n, level |-> 0])]
           ELSE [st |-> st, out |-> acc.out]
      r == FoldLeftDomain(Step, [st |-> Start(P), out |-> <<>>], data)
  IN IF r.st.n = 0 THEN r.out ELSE Append(r.out, [n |-> r.st.n, level |-> 0])

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* What a splitter of some files gives
Expected(P, files, keep) == IF keep THEN Flat([f \in DOMAIN files |-> Chunks(P, files[f])])
                            ELSE Chunks(P, Flat(files))

\* ---- Records (of a directory's tree): is there a split after this one?
\* "either": the size might include that of the record before; and nothing's known after that.
RecordSplits(P, recs) ==
  LET Byte(a, x) ==   \* a: [st, win (bytes since the reset), hit, extra]
        IF a.hit THEN a
        ELSE LET st == Roll(P, a.st, x, IF a.st.n >= P.w THEN a.win[a.st.n + 1 - P.w] ELSE 0)
             IN [st |-> st, win |-> Append(a.win, x), hit |-> Hit(P, st.s1, st.s2),
                 extra |-> IF Hit(P, st.s1, st.s2) THEN Extra(P, st.s1, st.s2) ELSE 0]
      Fresh == [st |-> Start(P), win |-> <<>>, hit |-> FALSE, extra |-> 0]
      Rec(acc, k) ==
        LET a == FoldLeft(Byte, acc.a, recs[k])
            n == Len(recs[k])
            lo == acc.lo + n
            hi == acc.hi + n
            v == IF acc.lost THEN "either" ELSE IF a.hit THEN "hit" ELSE IF lo > P.max THEN "size"
                 ELSE IF hi > P.max THEN "either" ELSE "no"
        IN [a |-> IF v \in {"hit", "size"} THEN Fresh ELSE a,
            lo |-> IF v \in {"hit", "size"} THEN 0 ELSE lo,
            hi |-> IF v = "hit" THEN n ELSE IF v = "size" THEN 0 ELSE hi,
            lost |-> v = "either",
            out |-> Append(acc.out, [v |-> v, bits |-> IF a.hit THEN P.bits + a.extra ELSE 0])]
  IN FoldLeftDomain(Rec, [a |-> Fresh, lo |-> 0, hi |-> 0, lost |-> FALSE, out |-> <<>>], recs).out

\* ---- The tree of chunks: a node is [size, kids]; a chunk has no kids.
SizeOf(nodes) == FoldLeft(LAMBDA a, x : a + x.size, 0, nodes)
Offsets(nodes) == [k \in DOMAIN nodes |-> SizeOf(SubSeq(nodes, 1, k - 1))]
RECURSIVE Width(_)
Width(n) == IF n < 16 THEN 1 ELSE 1 + Width(n \div 16)

\* Everything up to level n becomes trees, as does what has become too long
RECURSIVE Squish(_, _, _, _)
Squish(most, stacks, k, n) ==
  IF ~(k < n + 1 \/ Len(stacks[k]) >= most) THEN stacks
  ELSE LET st == IF Len(stacks) < k + 1 THEN Append(stacks, <<>>) ELSE stacks
           up == IF Len(st[k]) <= 1 THEN st[k + 1] \o st[k]
                 ELSE Append(st[k + 1], [size |-> SizeOf(st[k]), kids |-> st[k]])
       IN Squish(most, [st EXCEPT ![k] = <<>>, ![k + 1] = up], k + 1, n)
Build(most, cs) ==
  LET Add(st, c) == Squish(most, [st EXCEPT ![1] = Append(@, [size |-> c.n, kids |-> <<>>])], 1, c.level)
      r == FoldLeft(Add, << <<>> >>, cs)
      all == Squish(most, r, 1, Len(r) - 1)
  IN all[Len(all)]
\* The chunks in order
RECURSIVE Leaves(_)
Leaves(nodes) == FoldLeft(LAMBDA a, x : a \o (IF x.kids = <<>> THEN <<x.size>> ELSE Leaves(x.kids)), <<>>, nodes)
=============================================================================
