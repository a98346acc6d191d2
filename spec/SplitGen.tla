------------------------------- MODULE SplitGen -------------------------------
(* Generates streams for splitters: files made of pieces, how they arrive, and settings; and
   sequences of records.  A "hit" is a piece that ends with a window that's a split point, with e
   further ones; "almost" is one bit short of it. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Big
VARIABLES n, done
Pick(S) == RandomElement(S)
Of(s) == s[Pick(1..Len(s))]
Kinds == << "rand", "rand", "zero", "text", "hit", "hit", "hit", "almost", "again", "hithit", "same" >>
Sizes == << 0, 1, 2, 63, 64, 65, 100, 500, 1000, 3000 >>
BigSizes == << 100, 4000, 8191, 32767, 32768, 32769, 70000, 1000000, 3000000, 8388608, 8388607 >>
Piece(x) == [k |-> Of(Kinds), n |-> IF Big /\ Pick(1..3) = 1 THEN Of(BigSizes) ELSE Of(Sizes),
             e |-> Of(<< 0, 0, 0, 1, 3, 4, 5, 8, 12, 16 >>)]
File(x) == [p \in 1..Pick(0..(IF Big THEN 12 ELSE 9)) |-> Piece(x + p)]
Arrival(x) == [k |-> Of(<< "file", "file", "pipe", "read", "read", "bytesio" >>), n |-> Of(<< 1, 7, 64, 1000, 65536, 9000000 >>)]
Fills(x) == [a |-> Pick(0..3), at |-> Pick(0..6)]
Case(x) == [bits |-> Of(IF Big THEN << 13, 13, 14, 16, 17, 19, 21 >> ELSE << 13, 13, 13, 13, 13, 13, 15, 16, 17, 18, 20, 21 >>),
            keep |-> Pick(1..3) = 1, fanbits |-> Of(<< 4, 4, 4, 1, 2, 3, 7 >>),
            files |-> [f \in 1..Pick(1..4) |-> File(f)],
            \* a long run somewhere, for the limit
            long |-> IF Big \/ Pick(1..5) > 1 THEN 0 ELSE Of(<< 32768, 32767, 32769, 40000, 33000 >>),
            edge |-> Of(<< 0, 0, 1, 2, 62, 63, 64, 65, 1000 >>),
            arr |-> [a \in 1..2 |-> Arrival(a)],
            recs |-> [r \in 1..Pick(5..25) |-> Piece(r)],
            \* records without split points, up to the limit
            dull |-> Pick(1..4) = 1]
Init == n = 0 /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ n' = 1
        /\ PrintT("@@" \o ToJson(Case(n)))
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
