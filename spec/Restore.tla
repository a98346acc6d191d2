------------------------------- MODULE Restore -------------------------------
(* What restoring items of a snapshot into a directory gives (X01; with an empty directory and
   the whole snapshot: S01).  A tree is a set of [p, n]: a path (a sequence of names, <<>> is its
   root) and what is there: n.k is "d" for directories. *)
EXTENDS Integers, Sequences, FiniteSets

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Under(T, at) == { x \in T : Prefix(at, x.p) }
Rel(p, at) == SubSeq(p, Len(at) + 1, Len(p))

\* The kinds of exclusion patterns: by file name, directory name, what is inside a directory, and
\* the same only at the top.
Hit(x, p, dir) ==
  LET last == p[Len(p)]
  IN CASE x.k = "file" -> ~dir /\ last = x.n
       [] x.k = "dir" -> dir /\ last = x.n
       [] x.k = "inside" -> \E j \in 1..(Len(p) - 1) : p[j] = x.n
       [] x.k = "top" -> p[1] = x.n
       [] x.k = "topfile" -> Len(p) = 1 /\ ~dir /\ last = x.n
\* p is relative to the top of what is restored
Excluded(S, p, isdir(_), ex) ==
  \E x \in ex : \E j \in 1..Len(p) : Hit(x, SubSeq(p, 1, j), j < Len(p) \/ isdir(p))

\* What an argument selects, with its place in the output: [p, n].  Forms: "item", "inside" (a
\* trailing slash), "dot" (a trailing /., which also gives the root of the output its metadata)
Selected(S, arg) ==
  LET X == Under(S, arg.p)
      base == IF arg.form = "item" THEN SubSeq(arg.p, 1, Len(arg.p) - 1) ELSE arg.p
  IN { [p |-> Rel(x.p, base), n |-> x.n] : x \in { y \in X : arg.form = "item" \/ y.p # arg.p } }
Chosen(S, arg, ex) ==
  LET X == Selected(S, arg)
      D == { x.p : x \in { y \in X : y.n.k = "d" } }
  IN { x \in X : ~ \E r \in ex : \E j \in 1..Len(x.p) : Hit(r, SubSeq(x.p, 1, j), j < Len(x.p) \/ x.p \in D) }

\* An item of that name can't be put there.
Refused(out, C) == \E x \in C : /\ Len(x.p) = 1
                                /\ \E y \in out : Prefix(x.p, y.p) /\ y.p # x.p
Put(out, C) == { y \in out : ~ \E x \in C : x.p = y.p } \cup C
\* The outcome of several arguments: [ok, t]
RECURSIVE RestoreAll(_, _, _, _)
RestoreAll(S, out, args, ex) ==
  IF args = <<>> THEN [ok |-> TRUE, t |-> out]
  ELSE LET a == Head(args)
           C == Chosen(S, a, ex)
       IN IF a.bad THEN [RestoreAll(S, out, Tail(args), ex) EXCEPT !.ok = FALSE]
          ELSE IF Refused(out, C) THEN [ok |-> FALSE, t |-> {}]
          ELSE RestoreAll(S, Put(out, C), Tail(args), ex)
=============================================================================
