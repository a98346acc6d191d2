------------------------------ MODULE FsckGen ------------------------------
(* Generates damage and fsck requests: each step damages some files, asks fsck, and perhaps
   puts everything back. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS NPacks, NSteps
VARIABLES steps, done
Pick(S) == RandomElement(S)
PackD == << "ok", "ok", "ok", "ok", "byte", "byte", "byte", "bytes", "trunc", "head", "tail", "extend",
            "half", "empty", "missing", "short" >>
IdxD == << "ok", "ok", "ok", "ok", "byte", "byte", "trunc", "empty", "missing", "other", "short" >>
RecD == << "ok", "ok", "ok", "ok", "ok", "none", "none", "emptyidx", "emptyvol", "noidx", "novol", "byteidx",
           "bytevol", "emptyboth" >>
Of(s) == s[Pick(1..Len(s))]
Dmg(n) == [pack |-> Of(PackD), idx |-> Of(IdxD), rec |-> Of(RecD)]
None == [pack |-> "ok", idx |-> "ok", rec |-> "ok"]
\* Most packs are fine
Damages(k) == [p \in 1..NPacks |-> IF Pick(1..5) <= 2 THEN Dmg(p)
                               ELSE IF Pick(1..8) = 1 THEN [None EXCEPT !.rec = "stale"] ELSE None]
Step(n) == [dmg |-> Damages(n), mode |-> Pick({"verify", "verify", "repair", "repair", "repair", "generate"}),
            quick |-> Pick(1..3) = 1, nopar2 |-> Pick(1..10) = 1, j |-> Pick({0, 0, 1, 2, 5}), v |-> Pick(0..1),
            args |-> Pick({"all", "all", "all", "some", "one"}), again |-> Pick(1..3) = 1,
            \* something (say the out of memory killer) kills whatever verifies this pack
            kill |-> Pick({0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3})]
Init == steps = <<>> /\ done = FALSE
Next == \/ Len(steps) < NSteps /\ steps' = Append(steps, Step(0)) /\ UNCHANGED done
        \/ Len(steps) = NSteps /\ ~done /\ PrintT("@@" \o ToJson([steps |-> steps])) /\ done' = TRUE
           /\ UNCHANGED steps
Spec == Init /\ [][Next]_<<steps, done>>
=============================================================================
