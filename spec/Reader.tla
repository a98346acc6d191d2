------------------------------- MODULE Reader -------------------------------
(* Reading a saved file (V03).  As the user sees it: a position, and bytes 0..size-1. *)
EXTENDS Integers, Sequences, FiniteSets

\* After seeking and reading: [pos, out]: out is [ok, at, len].
Seek(size, pos, ofs) == IF ofs = pos \/ (ofs >= 0 /\ ofs <= size)
                        THEN [pos |-> ofs, ok |-> TRUE, at |-> 0, len |-> 0]
                        ELSE [pos |-> pos, ok |-> FALSE, at |-> 0, len |-> 0]
Avail(size, pos) == IF pos >= size THEN 0 ELSE size - pos
Read(size, pos, n) == LET l == IF n < 0 \/ n > Avail(size, pos) THEN Avail(size, pos) ELSE n
                      IN [pos |-> pos + l, ok |-> TRUE, at |-> pos, len |-> l]
Do(size, pos, c) == CASE c.c = "seek" -> Seek(size, pos, c.n)
                      [] c.c = "read" -> Read(size, pos, c.n)
                      [] c.c = "tell" -> [pos |-> pos, ok |-> TRUE, at |-> pos, len |-> 0]
\* The outcomes of a sequence of calls, from position pos
RECURSIVE Session(_, _, _)
Session(size, pos, calls) ==
  IF calls = <<>> THEN <<>>
  ELSE LET r == Do(size, pos, Head(calls)) IN <<r>> \o Session(size, r.pos, Tail(calls))

\* How it is stored: a chunk [k |-> "b", d] with data d, or a tree [k |-> "t", e] of entries
\* [o, t]: offset within the tree and subtree.
RECURSIVE Flat(_), FlatAll(_), Size(_)
Flat(t) == IF t.k = "b" THEN t.d ELSE FlatAll(t.e)
FlatAll(e) == IF e = <<>> THEN <<>> ELSE Flat(Head(e).t) \o FlatAll(Tail(e))
\* The size is where the last chunk ends.
Size(t) == IF t.k = "b" THEN Len(t.d) ELSE LET l == t.e[Len(t.e)] IN l.o + Size(l.t)
\* The data from ofs on, without looking at the chunks before it.
RECURSIVE From(_, _), FromEach(_, _)
From(t, ofs) ==
  IF t.k = "b" THEN SubSeq(t.d, ofs + 1, Len(t.d))
  ELSE LET K == { k \in DOMAIN t.e : t.e[k].o <= ofs }
           first == CHOOSE k \in K : \A j \in K : j <= k
       IN FromEach(SubSeq(t.e, first, Len(t.e)), ofs)
FromEach(e, ofs) ==
  IF e = <<>> THEN <<>>
  ELSE From(Head(e).t, IF ofs > Head(e).o THEN ofs - Head(e).o ELSE 0) \o FromEach(Tail(e), ofs)
=============================================================================
