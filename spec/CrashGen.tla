------------------------------- MODULE CrashGen -------------------------------
(* Generates a history of a repository and a command to be interrupted (D01, D02). *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxBase
VARIABLES n
Pick(S) == RandomElement(S)
One(k) == Pick(1..k) = 1
Setup(j) == [op |-> Pick({"save", "save", "save", "split", "tag", "rmbranch", "midx", "bloom", "rmsave"}),
             b |-> Pick(1..3), c |-> Pick(1..6), k |-> Pick(0..9)]
Victims == {"index", "save", "save", "save", "split", "get", "get", "tag", "tagf", "tagd", "rm", "rmbranch",
            "prune", "prunegc", "gc", "gc", "midx", "bloom", "init"}
Init == n = 0
Next == /\ n = 0 /\ n' = 1
        /\ PrintT("@@" \o ToJson([base |-> [j \in 1..Pick(2..MaxBase) |-> Setup(j)],
             victim |-> [op |-> Pick(Victims), b |-> Pick(1..3), c |-> Pick(1..6), k |-> Pick(0..9),
                         how |-> Pick(0..5), remote |-> One(3)],
             objs |-> Pick({0, 5, 9}), trees |-> One(3), torn |-> One(2), seed |-> Pick(1..1000)]))
Spec == Init /\ [][Next]_n
===============================================================================
