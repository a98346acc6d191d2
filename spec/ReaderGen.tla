------------------------------ MODULE ReaderGen ------------------------------
(* Generates files (how they are stored, their size and content) and sessions of calls: offsets
   are relative to places that matter. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NFiles, NSessions, MaxCalls
VARIABLES n
Pick(S) == RandomElement(S)
Near == {-1, 0, 1}
Place(k) == [k |-> Pick({"start", "chunk", "chunk", "chunk", "tree", "any", "any", "any", "end", "same", "prev", "back"}),
             n |-> Pick(0..999), d |-> Pick({-1, 0, 0, 0, 1, 3})]
Call(k) == LET c == Pick(1..10)
           IN IF c <= 4 THEN [c |-> "seek", p |-> Place(0), n |-> 0, s |-> ""]
              ELSE IF c = 5 THEN [c |-> "tell", p |-> Place(0), n |-> 0, s |-> ""]
              ELSE [c |-> "read", p |-> Place(0), n |-> Pick(0..9999),
                    s |-> Pick({"zero", "tiny", "tiny", "small", "small", "small", "tochunk", "tochunk", "huge", "rest", "page"})]
\* A tree of chunks for a file that's put together by hand
RECURSIVE Shape(_)
Shape(d) == IF d = 0 \/ Pick(1..3) = 1 THEN [k |-> "b", n |-> Pick({1, 1, 2, 3, 5, 20})]
            ELSE [k |-> "t", e |-> [x \in 1..Pick(2..6) |-> Shape(d - 1)]]
File(k) == [how |-> Pick({"save", "save", "split", "split", "hand", "hand", "hand"}),
            size |-> Pick({"0", "1", "tiny", "blob", "chunks", "chunks", "big"}),
            what |-> Pick({"random", "random", "blocks", "zeros", "text"}),
            bits |-> Pick({"", "13", "15", "17"}), fanout |-> Pick({0, 2, 3, 16, 128}),
            shape |-> [k |-> "t", e |-> [x \in 1..Pick(2..5) |-> Shape(Pick(0..3))]],
            sessions |-> [x \in 1..NSessions |-> [by |-> Pick({"vfs", "vfs", "vfs", "fuse"}), calls |-> [y \in 1..Pick(1..MaxCalls) |-> Call(y)]]]]
Init == n = 0
Next == n = 0 /\ n' = 1 /\ PrintT("@@" \o ToJson([files |-> [k \in 1..NFiles |-> File(k)]]))
Spec == Init /\ [][Next]_n
=============================================================================
