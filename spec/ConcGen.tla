-------------------------------- MODULE ConcGen ---------------------------------
(* Generates a repository, commands to run at the same time, and schedules for them (C01): which
   process goes on in turn, each until its next gate (a position in the sequence of its operations,
   in thousandths, or below 0: that git command it runs, from the last) or its end. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES n
Pick(S) == RandomElement(S)
One(k) == Pick(1..k) = 1
OneOf(s) == s[Pick(1..Len(s))]
Kinds == {"save", "save2", "split", "append", "pick", "forcepick", "ff", "replace", "tag", "tagf", "newtag", "picktag",
          "tagd", "rmbranch", "rmsave", "rmlast", "rmall", "prune", "midx", "midxf", "bloom", "bloomf"}
Adders == {"save", "save2", "split", "append", "pick", "forcepick"}
Kind(s) == IF s = "tags" THEN Pick({"tag", "tagf", "newtag", "picktag", "tagd", "tag", "newtag"})
           ELSE IF s = "mixed" THEN Pick(Kinds)
           ELSE IF One(3) THEN Pick({"ff", "replace", "rmbranch", "rmsave", "rmlast", "prune"}) ELSE Pick(Adders)
Cmd(s) == [k |-> Kind(s), r |-> OneOf(IF s = "new" THEN <<"c", "c", "c", "a">> ELSE <<"a", "a", "a", "b", "c">>),
           t |-> OneOf(<<"t", "u", "u", "u">>), c |-> Pick(1..6), remote |-> One(3), x |-> Pick(0..9)]
Gate(x) == IF x >= 4 THEN -OneOf(<<1, 1, 1, 2, 3, 4, 6>>) ELSE IF x = 1 THEN Pick(1..1000) ELSE IF x = 2 THEN Pick(600..1000) ELSE Pick(850..1000)
Gates(k) == [j \in 1..k |-> Gate(Pick(1..7))]
\* One of them stops just before its last git command; the others run
Classic(m, q) == [gates |-> [p \in 1..m |-> IF p = q THEN <<-1>> ELSE <<>>], word |-> <<q>> \o [j \in 1..m |-> IF j = q THEN 1 + (q % m) ELSE j]]
Mixed(m) == [gates |-> [p \in 1..m |-> Gates(IF One(3) THEN 2 ELSE IF One(6) THEN 0 ELSE 1)],
                word |-> [j \in 1..(m * 3) |-> Pick(1..m)]]
Scenario(m, s) == [base |-> [j \in 1..Pick(2..5) |-> [op |-> OneOf(<<"save", "save", "split", "midx", "bloom">>), r |-> OneOf(<<"a", "a", "b">>), c |-> Pick(1..6)]],
                   cmds |-> [j \in 1..m |-> Cmd(s)], same |-> One(2), shared |-> One(3),
                   schedules |-> [j \in 1..12 |-> IF j <= m THEN Classic(m, j) ELSE Mixed(m)]]
Init == n = 0
Next == /\ n = 0 /\ n' = 1
        /\ PrintT("@@" \o ToJson(Scenario(IF One(4) THEN 3 ELSE 2, OneOf(<<"branch", "branch", "branch", "new", "tags", "tags", "mixed">>))))
Spec == Init /\ [][Next]_n
===============================================================================
