------------------------------ MODULE FsckMC ------------------------------
(* The packs are processed by up to Jobs processes at a time, which finish in any order; the
   statuses are merged as they come.  The result must be that of Fsck!Exit, whatever the order. *)
EXTENDS Fsck
CONSTANTS N, Jobs, Merge
VARIABLES packs, req, todo, running, code, seen
vars == <<packs, req, todo, running, code, seen>>
PackStates == [pack : {"ok", "dmg", "lost"}, idx : {"ok", "dmg", "other", "missing"},
               rec : {"none", "ok", "bad", "odd", "wrong"}]
Reqs == [mode : {"verify", "repair"}, quick : BOOLEAN, par2 : {TRUE}]
\* One representative for each set of outcomes
Kinds(r) == { Outcomes(p, r) : p \in PackStates }
Status(o) == IF o = "ok" THEN 0 ELSE IF o = "repaired" THEN 1 ELSE 2
\* A failure stays, whatever else happens
GoodMerge(c, s) == IF c \notin {0, 1} THEN c ELSE IF s \notin {0, 1} THEN s
                   ELSE IF c = 1 \/ s = 1 THEN 1 ELSE 0
OrMerge(c, s) == IF c # 0 THEN c ELSE s
M(c, s) == IF Merge = "good" THEN GoodMerge(c, s) ELSE OrMerge(c, s)
Init == /\ req \in Reqs
        /\ packs \in [1..N -> Kinds(req)]
        /\ todo = 1..N /\ running = {} /\ code = 0 /\ seen = {}
Start == \E p \in todo : /\ Cardinality(running) < Jobs
                         /\ todo' = todo \ {p} /\ running' = running \cup {p}
                         /\ UNCHANGED <<packs, req, code, seen>>
Finish == \E p \in running : \E o \in packs[p] :
            /\ running' = running \ {p} /\ code' = M(code, Status(o)) /\ seen' = seen \cup {o}
            /\ UNCHANGED <<packs, req, todo>>
Next == Start \/ Finish
Spec == Init /\ [][Next]_vars
Done == todo = {} /\ running = {}
Right == Done => Exit(seen) = (CASE code = 0 -> "zero" [] code = 1 -> "one" [] OTHER -> "error")
\* Nothing is repaired unless asked to
OnlyRepair == "repaired" \in seen => req.mode = "repair"
\* A sound pack is never rejected, a broken one never accepted
Sound == \A p \in PackStates, r \in Reqs :
  /\ (p.pack = "ok" /\ p.idx = "ok" /\ p.rec \in {"none", "ok"}) => Outcomes(p, r) = {"ok"}
  /\ ("ok" \in Outcomes(p, r)) => p.pack = "ok" /\ p.idx \in {"ok", "other"}
=============================================================================
