------------------------------- MODULE VfsGen -------------------------------
(* Generates trees with links, and lookups in them.  The tree has at most four names per
   directory and three levels: its possible paths are numbered 0..83 (4 + 16 + 64), and what
   is at each is chosen here; those whose directory isn't there are ignored. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NTrees, NLookups
VARIABLES n
Pick(S) == RandomElement(S)
A == <<"a", "b", "x.bup", "l">>
Name(k) == A[k]
Kinds == <<"d", "d", "d", "d", "f", "f", "l", "l", "l", "F", "-", "-">>
Comp(k) == LET c == Pick(1..12) IN IF c <= 8 THEN A[((c - 1) % 4) + 1] ELSE IF c <= 10 THEN ".." ELSE IF c = 11 THEN "." ELSE Pick({"y", "latest", "main~1", "x.bup.bupl"})
Comps(m) == [k \in 1..Pick(1..m) |-> Comp(k)]
\* An absolute path has to start with a branch or tag.
Top(k) == Pick({<<"main", "latest">>, <<"main", "latest">>, <<"main", "D1">>, <<"other", "D1">>,
             <<".tag", "t">>, <<"other", "latest">>, <<"main", "latest", "..">>, <<"main", "..">>,
             <<"main">>, <<".tag">>, <<"..">>, <<"main~1">>, <<"nix">>})
Link(k) == LET abs == Pick(1..4) = 1
           IN [abs |-> abs, c |-> IF abs THEN Top(k) \o Comps(3) ELSE Comps(4), slash |-> Pick(1..5) = 1]
Tree(k) == [kinds |-> [p \in 1..84 |-> Kinds[Pick(DOMAIN Kinds)]], links |-> [p \in 1..84 |-> Link(p)]]
Lookup(k) ==
  LET c == Pick(1..10)
      start == IF c <= 6 THEN Top(k) \o Comps(5) ELSE IF c <= 8 THEN Top(k) ELSE Comps(5)
  IN [c |-> start, abs |-> Pick(BOOLEAN), slash |-> Pick(1..4) = 1, follow |-> Pick(1..3) > 1,
      meta |-> Pick(BOOLEAN), dup |-> Pick(1..6) = 1,
      from |-> IF Pick(1..3) = 1 THEN Top(k) \o Comps(3) ELSE <<>>]
Init == n = 0
Next == /\ n = 0 /\ n' = 1
        /\ PrintT("@@" \o ToJson([trees |-> [k \in 1..NTrees |-> Tree(k)],
                                  lookups |-> [k \in 1..NLookups |-> Lookup(k)]]))
Spec == Init /\ [][Next]_n
=============================================================================
