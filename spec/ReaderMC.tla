------------------------------ MODULE ReaderMC ------------------------------
(* All small chunk trees: reading by chunks is reading the flat file. *)
EXTENDS Reader, TLC
CONSTANTS Fan, Depth, Sizes, Wrong
\* Shapes: a number is a chunk of that size, a sequence a tree.
RECURSIVE Shapes(_)
Shapes(d) == IF d = 0 THEN { [k |-> "b", s |-> s] : s \in Sizes }
             ELSE LET S == Shapes(d - 1)
                  IN S \cup { [k |-> "t", s |-> e] : e \in UNION { [1..n -> S] : n \in 2..Fan } }
RECURSIVE Len1(_), LenAll(_)
Len1(s) == IF s.k = "b" THEN s.s ELSE LenAll(s.s)
LenAll(e) == IF e = <<>> THEN 0 ELSE Len1(Head(e)) + LenAll(Tail(e))
\* The tree of a shape whose data is start, start + 1, ...; base: where its entries are relative to
RECURSIVE Build(_, _)
Build(s, start) ==
  IF s.k = "b" THEN [k |-> "b", d |-> [n \in 1..s.s |-> start + n - 1]]
  ELSE [k |-> "t", e |-> [n \in DOMAIN s.s |->
         LET o == LenAll(SubSeq(s.s, 1, n - 1))
         IN [o |-> IF Wrong THEN start + o ELSE o, t |-> Build(s.s[n], start + o)]]]
VARIABLES shape, pos, out
vars == <<shape, pos, out>>
Init == shape \in Shapes(Depth) /\ pos = 0 /\ out = <<>>
Tr == Build(shape, 0)
N == Len1(shape)
ReadChunks(n) == LET d == From(Tr, pos)  l == IF n < 0 \/ n > Len(d) THEN Len(d) ELSE n
                 IN out' = SubSeq(d, 1, l) /\ pos' = pos + l
Next == /\ UNCHANGED shape
        /\ \/ \E n \in -1..N + 1 : ReadChunks(n)
           \/ \E o \in 0..N : pos' = o /\ out' = <<>>
Spec == Init /\ [][Next]_vars
SizeRight == Size(Tr) = N
FlatRight == Flat(Tr) = [n \in 1..N |-> n - 1]
\* What was read is what's before the position.
Exact == \A k \in DOMAIN out : out[k] = pos - Len(out) + k - 1
Complete == [][ \A n \in -1..N + 1 : LET r == Read(N, pos, n) IN
                  Len(out') = r.len /\ pos' = r.pos => \A k \in DOMAIN out' : out'[k] = r.at + k - 1 ]_vars
=============================================================================
