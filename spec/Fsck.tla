-------------------------------- MODULE Fsck --------------------------------
(* What fsck says about a pack, and does to it (F01).  A pack p has
     pack:  "ok", "dmg" (a little damage, recoverable), "lost" (too much), "missing"
     idx:   "ok", "dmg" (not the index of the pack, or none), "other" (a sound index, but of
            another pack), "missing"
     rec:   the recovery files: "none", "ok", "wrong" (for something else than the sound pack), "bad" (some empty or missing), "odd" (damaged
            otherwise)
   A request r has mode ("verify", "generate", "repair"), quick, and par2 (whether it's enabled). *)
EXTENDS Naturals, FiniteSets, Sequences

Intact(p, r) == p.pack = "ok" /\ (p.idx = "ok" \/ (r.quick /\ p.idx = "other"))
\* The possible outcomes: "ok", "repaired", "failed"
Outcomes(p, r) ==
  IF p.rec = "bad" THEN {"failed"}
  ELSE IF r.mode = "verify"
       THEN IF ~Intact(p, r) THEN {"failed"}
            ELSE IF r.par2 /\ p.rec = "odd" THEN {"ok", "failed"}
            ELSE IF r.par2 /\ p.rec = "wrong" THEN {"failed"} ELSE {"ok"}
  ELSE IF r.mode = "generate"
       THEN IF p.rec # "none" THEN {"ok"}
            ELSE IF p.pack = "missing" THEN {"failed"}
            \* the recovery data is for what's there
            ELSE {"ok"} \cup (IF p.pack = "lost" THEN {"failed"} ELSE {})
  ELSE IF Intact(p, r) THEN {"ok"}
       ELSE IF p.rec \in {"none", "wrong"} \/ p.pack \in {"lost", "missing"} THEN {"failed"}
       ELSE IF p.rec = "odd" THEN {"repaired", "failed"} ELSE {"repaired"}

\* The exit status: "zero", "one" (repaired, and no errors) or "error".
Exit(S) == IF "failed" \in S THEN "error" ELSE IF "repaired" \in S THEN "one" ELSE "zero"
=============================================================================
