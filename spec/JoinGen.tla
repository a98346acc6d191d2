------------------------------- MODULE JoinGen -------------------------------
(* Generates splits of data and joins of what they gave. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES ops, set, done
Pick(S) == RandomElement(S)
Of(s) == s[Pick(1..Len(s))]
Kinds == << "rand", "rand", "zero", "text", "hit", "hit", "hithit", "same" >>
Sizes == << 0, 1, 64, 100, 500, 1000, 8000, 40000 >>
Piece(x) == [k |-> Of(Kinds), n |-> Of(Sizes), e |-> Of(<< 0, 0, 1, 4, 5, 8, 12 >>)]
\* Some pieces, and then many small chunks
File(x) == [ps |-> [p \in 1..Pick(0..3) |-> Piece(x + p)], many |-> Of(<< 0, 0, 0, 5, 40, 120, 600 >>),
            e |-> Of(<< 0, 0, 1, 4, 8 >>)]
Split(x) == [k |-> "split", mode |-> Of(<< "b", "t", "c", "n", "n", "n", "cn", "tn", "tcn", "tc", "noop-b", "noop-t",
                                     "noop", "copy" >>),
             src |-> Of(<< "files", "files", "stdin", "ids" >>), keep |-> Pick(1..4) = 1,
             fanout |-> Of(<< 0, 0, 0, 2, 3, 16, 100, 1000 >>), level |-> Of(<< 10, 0, 1, 9 >>),
             maxobj |-> Of(<< 0, 0, 0, 1, 60 >>), maxsize |-> Of(<< 0, 0, 0, 9000, 50000 >>),
             date |-> Of(<< 0, 0, 1, 1000000000, 2000000000 >>),
             remote |-> Pick(1..4) = 1, name |-> Pick(1..2),
             \* the data: made before, or new
             old |-> Pick(1..3) = 1, close |-> Pick(1..4) = 1, files |-> [f \in 1..Pick(1..3) |-> File(f)]]
Join(x) == [k |-> "join", n |-> Of(<< 1, 1, 1, 2, 3 >>), how |-> Pick({"args", "args", "stdin"}), o |-> Pick(1..4) = 1,
            remote |-> Pick(1..3) = 1, as |-> Pick({"id", "name"}), missing |-> Pick(1..6) = 1]
Init == ops = <<>> /\ done = FALSE /\ set = [bits |-> Of(<< 0, 0, 13, 14, 16 >>)]
Next == \/ /\ Len(ops) < MaxOps
           /\ \E r \in {Pick(1..2)} : ops' = Append(ops, IF r = 1 \/ Len(ops) = 0 THEN Split(0) ELSE Join(0))
           /\ UNCHANGED <<set, done>>
        \/ Len(ops) = MaxOps /\ ~done /\ done' = TRUE /\ PrintT("@@" \o ToJson([ops |-> ops, bits |-> set.bits]))
           /\ UNCHANGED <<ops, set>>
Spec == Init /\ [][Next]_<<ops, set, done>>
=============================================================================
