------------------------------- MODULE VfsMC -------------------------------
(* All small trees with two links: resolving is compositional, ends inside the tree, and
   does the usual things with dots. *)
EXTENDS Vfs, TLC
CONSTANTS MaxTgt, MaxTgt2, MaxPath, Wrong
Names == {"a", "b", "l", "m"}
Comps == Names \cup {"..", "."}
Seqs(n) == UNION { [1..k -> Comps] : k \in 1..n }
Targets(n) == UNION { [1..k -> Comps \ {".", "b"}] : k \in 1..n }
VARIABLES ta, tb, la, lb, p, q, phase
vars == <<ta, tb, la, lb, p, q, phase>>
\* /a/ (a directory) with b (a file) and m (a link); /l a link; /b a directory
N == << [k |-> "d", e |-> <<[n |-> "a", id |-> 2], [n |-> "l", id |-> 3], [n |-> "b", id |-> 6]>>],
        [k |-> "d", e |-> <<[n |-> "b", id |-> 4], [n |-> "m", id |-> 5]>>],
        [k |-> "l", abs |-> la, tgt |-> ta],
        [k |-> "f"],
        [k |-> "l", abs |-> lb, tgt |-> tb],
        [k |-> "d", e |-> <<>>] >>
Init == /\ ta \in Targets(MaxTgt) /\ tb \in Targets(MaxTgt2) /\ la \in BOOLEAN /\ lb \in BOOLEAN
        /\ p = <<".">> /\ q = <<".">> /\ phase = 0
Pick == /\ phase = 0 /\ phase' = 1
        /\ p' \in Seqs(MaxPath) /\ q' \in Seqs(1)
        /\ UNCHANGED <<ta, tb, la, lb>>
Next == Pick
Spec == Init /\ [][Next]_vars
R(start, c, f) == IF Wrong /\ Len(c) > 1 /\ c[2] = ".." THEN Resolve(N, start, FALSE, SubSeq(c, 3, Len(c)), f)
                  ELSE Resolve(N, start, FALSE, c, f)
\* p/q is q from what p is (if hops don't run out)
Compositional ==
  LET x == R(<<1>>, p, TRUE)
  IN IF x.st = "ok" THEN LET y == Walk(N, x.at, q, TRUE, 0)  z == R(<<1>>, p \o q, TRUE)
                         IN y.st # "loop" /\ z.st # "loop" => y = z
     ELSE R(<<1>>, p \o q, TRUE) = x
DotEnd == LET x == R(<<1>>, p, TRUE)  y == R(<<1>>, Append(p, "."), TRUE)
          IN IF x.st # "ok" THEN y = x
             ELSE IF N[x.at[Len(x.at)]].k = "d" THEN y = x ELSE y.st = "notdir"
\* What's resolved isn't a link, and is where it is.
Inside == LET x == R(<<1>>, p, TRUE)
          IN /\ x.at[1] = 1
             /\ \A n \in 2..Len(x.at) : \E e \in DOMAIN N[x.at[n - 1]].e : N[x.at[n - 1]].e[e].id = x.at[n]
             /\ x.st = "ok" => N[x.at[Len(x.at)]].k # "l"
NoFollow == LET x == R(<<1>>, p, TRUE)  y == R(<<1>>, p, FALSE)
            IN y.st = "ok" /\ N[y.at[Len(y.at)]].k # "l" => x = y
=============================================================================
