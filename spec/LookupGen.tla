----------------------------- MODULE LookupGen -----------------------------
(* Generates histories of what happens to a directory of indexes: packs come and go, midx files
   and bloom filters are made, become stale, are damaged, or are replaced by older ones; readers
   look for objects. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxOps, NPacks
VARIABLES ops, done
vars == <<ops, done>>
Pick(S) == RandomElement(S)
\* weights
W == << "add", "add", "add", "add", "adds", "del", "gc", "repack", "midx", "midx", "midx", "midx",
        "bloom", "bloom", "bloom", "bloom", "auto", "stash", "unstash", "unstash", "rmidx", "mangle",
        "look", "look", "look", "long", "long", "refresh", "refresh", "checkm", "checkm", "checkb",
        "checkb", "checkb", "badmidx", "ruin", "addbad" >>
Op(n) == LET o == W[Pick(1..Len(W))] IN
  [o |-> o, p |-> Pick(1..NPacks), q |-> Pick(1..NPacks), n |-> Pick(1..NPacks),
   how |-> CASE o = "midx" -> Pick({"a", "a", "f", "af", "files", "files", "amax"})
             [] o = "bloom" -> Pick({"", "", "f", "k4", "k5"})
             [] o = "mangle" -> Pick({"old", "new", "bad", "empty"})
             [] o = "badmidx" -> Pick({"sha", "swap", "fan", "drop"})
             [] o = "checkm" -> Pick({"a", "a", "one"})
             [] o = "checkb" -> Pick({"idx", "idx", "midx", "abs"})
             [] OTHER -> "",
   w |-> Pick({"midx", "bloom"})]
Init == ops = <<>> /\ done = FALSE
Next == \/ Len(ops) < MaxOps /\ ops' = Append(ops, Op(0)) /\ UNCHANGED done
        \/ Len(ops) = MaxOps /\ ~done /\ PrintT("@@" \o ToJson([ops |-> ops])) /\ done' = TRUE
           /\ UNCHANGED ops
Spec == Init /\ [][Next]_vars
=============================================================================
