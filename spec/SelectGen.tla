------------------------------- MODULE SelectGen -------------------------------
(* Generates trees, indexings with exclusions, and saves with strip and graft options (S03).
   Paths are relative to the top directory; <<-1>> stands for "/". *)
EXTENDS Select, Json, Randomization
CONSTANTS Len0
Chars == <<(<<3>>), (<<3, 4>>), (<<4>>), (<<3, 5, 4>>), (<<6, 3>>)>>
Names == 1..5
VARIABLES W, hist, fresh
vars == <<W, hist, fresh>>
Pick(S) == RandomElement(S)
One(k) == Pick(1..k) = 1
SomeOf(n, S) == RandomSubset(Min2(n, Cardinality(S)), S)

RandomPath(j) == [i \in 1..Pick({1, 2, 2, 3, 3, 3, 4}) |-> Pick(Names)]
Close(P) == UNION { { SubSeq(p, 1, n) : n \in 1..Len(p) } : p \in P }
World(j) == LET P == Close({ RandomPath(i) : i \in 1..Pick({2, 5, 8, 12}) })
            IN { [p |-> p, d |-> (\E q \in P : Inside(q, p)) \/ One(5), c |-> Pick(1..6)] : p \in P }
          \cup { [p |-> <<>>, d |-> TRUE, c |-> 1] }
Changed(j) == IF One(2) THEN World(j)
              ELSE { [x EXCEPT !.c = IF One(2) THEN Pick(1..6) ELSE @] : x \in { y \in W : y.p = <<>> \/ ~One(6) \/ y.d } }

\* A piece of some path's text
Piece(f) == LET a == Pick(1..Len(f))
                b == Pick(a..Min2(Len(f), a + 4))
                l == SubSeq(f, a, b)
            IN IF \E k \in DOMAIN l : l[k] >= 3
               THEN (IF One(4) THEN [l EXCEPT ![Pick(DOMAIN l)] = 0] ELSE l)
               ELSE f
Real(l) == \E k \in DOMAIN l : l[k] >= 3
APiece(j) == LET V == { x \in W : x.p # <<>> }
                 x == IF V = {} THEN [p |-> <<1>>, d |-> FALSE] ELSE Pick(V)
                 p == Piece(FlatOf(Chars, <<>>, x))
             IN IF Real(p) THEN p ELSE <<2, 3, 4>>
Rx(j) == [lits |-> { APiece(i) : i \in 1..Pick({1, 1, 2}) }, bol |-> One(5), eol |-> One(3)]

Some == PathsOf(W) \ {<<>>}
APath(j) == IF One(6) \/ Some = {} THEN RandomPath(j) ELSE Pick(Some)
DoIndex(j) ==
  [op |-> "index", args |-> IF fresh \/ One(3) \/ Some = {} THEN {<<>>} ELSE SomeOf(Pick({1, 1, 2, 3}), Some),
   ex |-> IF One(2) THEN {} ELSE { APath(i) : i \in 1..Pick(1..3) },
   rx |-> IF One(2) THEN {} ELSE { Rx(i) : i \in 1..Pick({1, 1, 2}) },
   style |-> Pick(0..9)]
Dests == { <<>>, <<8>>, <<8>>, <<8, 9>>, <<9, 1>>, <<8, 9, 8>> }
\* (new paths are absolute)
Graft(j) == [old |-> Pick({ APath(j), APath(j), <<>>, <<-1>> }), new |-> Pick(Dests)]
Mode(j) == CASE Pick(1..5) = 1 -> [how |-> "none"]
             [] One(3) -> [how |-> "strip"]
             [] One(2) -> [how |-> "strippath", path |-> Pick({ APath(j), <<>>, <<>> })]
             [] OTHER -> [how |-> "graft", grafts |-> [i \in 1..Pick({1, 1, 2, 3}) |-> Graft(i)]]
DoSave(j) == [op |-> "save", args |-> IF One(2) \/ Some = {} THEN {<<>>} ELSE SomeOf(Pick({1, 2, 2, 3}), Some),
              m |-> Mode(j), limit |-> IF One(5) THEN Pick({1, 5, 100, 4000, 5000}) ELSE 0, style |-> Pick(0..9)]

Init == W = {} /\ fresh = FALSE /\ hist = <<>>
Step == \/ /\ ~fresh /\ (hist = <<>> \/ One(4))
           /\ W' = (IF hist = <<>> THEN World(1) ELSE Changed(1)) /\ fresh' = TRUE
           /\ hist' = Append(hist, [op |-> "world", w |-> W'])
        \/ /\ hist # <<>> /\ fresh' = FALSE /\ W' = W
           /\ hist' = Append(hist, IF fresh \/ One(4) THEN DoIndex(1) ELSE DoSave(1))
Next == \/ Len(hist) < Len0 /\ Step
        \/ /\ Len(hist) = Len0 /\ PrintT("@@" \o ToJson([ev |-> hist])) /\ UNCHANGED <<W, fresh>>
           /\ hist' = Append(hist, [op |-> "done"])
Spec == Init /\ [][Next]_vars
================================================================================
