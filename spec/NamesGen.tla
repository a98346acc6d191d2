------------------------------ MODULE NamesGen ------------------------------
(* Generates branch histories by the gaps between their dates, interleaved with listings and
   lookups of names, in a time zone. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES ops, done
Pick(S) == RandomElement(S)
Gaps == {"same", "same", "same", "sec", "hour", "back", "backhour", "day", "year", "fall", "fallhour", "spring", "far"}
G(k) == LET c == Pick(1..10) IN IF c <= 4 THEN "same" ELSE IF c <= 6 THEN "fallhour" ELSE Pick(Gaps)
Probe == {"listed", "listed", "base", "0", "00", "1", "count", "pad", "unpad", "other", "near", "trunc", "junk", "latest", "latest-0"}
Op(x) == LET c == Pick(1..10) IN
   IF c <= 4 THEN [op |-> "save", b |-> Pick({"a", "a", "b"}), gaps |-> [k \in 1..Pick({1, 1, 2, 3, 6, 11}) |-> G(k)]]
   ELSE IF c = 5 THEN [op |-> "drop", b |-> Pick({"a", "b"}), n |-> Pick(1..2)]
   ELSE IF c = 6 THEN [op |-> "ls", b |-> Pick({"a", "b"})]
   ELSE IF c = 7 THEN [op |-> "list", b |-> Pick({"a", "b"})]
   ELSE [op |-> "find", b |-> Pick({"a", "b"}), by |-> Pick({"vfs", "vfs", "cmd"}), probes |-> [k \in 1..4 |-> [k |-> Pick(Probe), n |-> Pick(0..30)]]]
Init == ops = <<>> /\ done = FALSE
Next == \/ Len(ops) < MaxOps /\ ops' = Append(ops, Op(0)) /\ UNCHANGED done
        \/ Len(ops) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED ops
           /\ PrintT("@@" \o ToJson([tz |-> Pick(1..5), start |-> Pick({"zero", "y2k", "now", "now", "leap"}), ops |-> ops]))
Spec == Init /\ [][Next]_<<ops, done>>
=============================================================================
