------------------------------ MODULE PruneGen ------------------------------
(* Generates histories and requests for prune-older.  Times are made of gaps between successive
   saves, and period starts are placed relative to saves, since what matters is which boundaries
   lie between them. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxSaves, NReq
VARIABLES gaps, gaps2, reqs, done
vars == <<gaps, gaps2, reqs, done>>

\* Kinds of gaps (the harness knows how long they are): the same second, a second, over
\* midnight, the same hour the next day, the same day next year, ...
Gaps == {"same", "sec", "hour", "midnight", "day", "days", "month", "months", "year", "yearday", "years"}
Kinds == {"all", "d", "m", "y"}
Pick(S) == RandomElement(S)
Req == [per : {[k \in Kinds |-> 0]}, x : {0}]
\* A period: none, forever, or one that starts near save n (off seconds from it).
Period(k) == LET c == Pick(1..10)
          IN IF c <= 3 THEN [k |-> "none", n |-> 0, off |-> 0]
             ELSE IF c = 4 THEN [k |-> "forever", n |-> 0, off |-> 0]
             ELSE [k |-> "near", n |-> Pick(1..MaxSaves), off |-> Pick({-1, 0, 1, 5000, -5000})]
NewReq(n) == [all |-> Period(1), d |-> Period(2), m |-> Period(3), y |-> Period(4),
           pretend |-> Pick(1..3) = 1, gc |-> Pick(BOOLEAN), end |-> Pick(1..4), endn |-> Pick(1..MaxSaves),
           roots |-> Pick({"both", "one", "one", "none"}), bad |-> Pick(1..12) = 1]

Init == gaps = <<>> /\ gaps2 = <<>> /\ reqs = <<>> /\ done = FALSE
Next == \/ /\ Len(gaps) < MaxSaves
           /\ gaps' = Append(gaps, Pick(Gaps))
           /\ gaps2' = IF Pick(1..2) = 1 THEN Append(gaps2, Pick(Gaps)) ELSE gaps2
           /\ UNCHANGED <<reqs, done>>
        \/ /\ Len(gaps) = MaxSaves /\ Len(reqs) < NReq
           /\ reqs' = Append(reqs, NewReq(0))
           /\ UNCHANGED <<gaps, gaps2, done>>
        \/ /\ Len(reqs) = NReq /\ ~done
           /\ PrintT("@@" \o ToJson([g |-> gaps, g2 |-> gaps2, reqs |-> reqs]))
           /\ done' = TRUE
           /\ UNCHANGED <<gaps, gaps2, reqs>>
Spec == Init /\ [][Next]_vars
=============================================================================
