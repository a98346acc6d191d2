---------------------------------- MODULE Conc ----------------------------------
(* What commands that run at the same time may do to references (C01).
   R: a function from references to histories (sequences of commits, oldest first).
   A command is [k, r, ids, xs]: what it does to the reference r:
     add: appends ids; ff: becomes ids, when that continues it (or it doesn't exist); set: becomes ids;
     new: as set, for one that doesn't exist; del: removes it; gone: removes it, if it exists;
     cut: loses xs (some of it), prune: loses those of xs that it has; none: nothing *)
EXTENDS Common

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Has(R, r) == r \in DOMAIN R
Hist(R, r) == IF Has(R, r) THEN R[r] ELSE <<>>
Enabled(R, c) ==
  CASE c.k = "ff" -> Prefix(Hist(R, c.r), c.ids)
    [] c.k = "new" -> ~Has(R, c.r)
    [] c.k \in {"del", "prune"} -> Has(R, c.r)
    [] c.k = "cut" -> SetOf(c.xs) \subseteq SetOf(Hist(R, c.r))
    [] OTHER -> TRUE
New(R, c) ==
  CASE c.k = "add" -> Hist(R, c.r) \o c.ids
    [] c.k \in {"ff", "set", "new"} -> c.ids
    [] c.k \in {"cut", "prune"} -> SelectSeq(Hist(R, c.r), LAMBDA x : x \notin SetOf(c.xs))
    [] OTHER -> <<>>
\* Nothing's left of a reference without history
With(R, r, h) == IF h = <<>> THEN [n \in DOMAIN R \ {r} |-> R[n]]
                 ELSE [n \in DOMAIN R \cup {r} |-> IF n = r THEN h ELSE R[n]]
Apply(R, c) == IF c.k = "none" THEN R ELSE With(R, c.r, New(R, c))

\* The states of the references when the commands are applied one after the other, in some order in
\* which all of them can be
RECURSIVE Serial(_, _, _)
Serial(R, cs, order) ==
  IF order = <<>> THEN <<R>>
  ELSE <<R>> \o Serial(Apply(R, cs[Head(order)]), cs, Tail(order))
RECURSIVE Works(_, _, _)
Works(R, cs, order) == order = <<>> \/ (Enabled(R, cs[Head(order)]) /\ Works(Apply(R, cs[Head(order)]), cs, Tail(order)))
Orders(S) == { s \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : s[a] = s[b] => a = b }
===============================================================================
