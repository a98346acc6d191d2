------------------------------ MODULE RepoGen ------------------------------
(* Generates command scripts for real repositories: random walks of this module are
   printed and replayed.  Its state is the part of Repo.tla's state needed to know which
   commands make sense. *)
EXTENDS Common, Json

CONSTANTS Branches, Tags, NContents, MaxLen,
          Ops      \* the kinds of commands to use

VARIABLES done,    \* has the script been printed?
          hist,    \* the script so far
          nsaves,  \* saves per branch
          tags     \* tags that exist
vars == <<done, hist, nsaves, tags>>

Emit(op) == op.op \in Ops /\ hist' = Append(hist, op)

Init == done = FALSE /\ hist = <<>> /\ nsaves = [b \in Branches |-> 0] /\ tags = {}

Save(b, c, how) ==
  /\ Emit([op |-> how, b |-> b, c |-> c])
  /\ nsaves' = [nsaves EXCEPT ![b] = @ + 1]
  /\ UNCHANGED tags

\* k-th newest save(s)
Rm(b, ks) ==
  /\ ks # {} /\ ks \subseteq 1..nsaves[b]
  /\ Emit([op |-> "rm", b |-> b, ks |-> ks])
  /\ nsaves' = [nsaves EXCEPT ![b] = @ - Cardinality(ks)]
  /\ UNCHANGED tags

\* Saves from two branches (or all of the second) in one command.
Rm2(b1, b2, ks1, ks2, whole2) ==
  /\ b1 # b2 /\ nsaves[b2] > 0
  /\ ks1 # {} /\ ks1 \subseteq 1..nsaves[b1] /\ ks2 \subseteq 1..nsaves[b2]
  /\ whole2 <=> ks2 = {}
  /\ Emit([op |-> "rm2", b1 |-> b1, b2 |-> b2, ks1 |-> ks1, ks2 |-> ks2])
  /\ nsaves' = [nsaves EXCEPT ![b1] = @ - Cardinality(ks1),
                              ![b2] = IF whole2 THEN 0 ELSE @ - Cardinality(ks2)]
  /\ UNCHANGED tags

RmBranch(b) ==
  /\ nsaves[b] > 0
  /\ Emit([op |-> "rmbranch", b |-> b])
  /\ nsaves' = [nsaves EXCEPT ![b] = 0]
  /\ UNCHANGED tags

Tag(t, b, k, f) ==
  /\ k \in 1..nsaves[b]
  /\ Emit([op |-> "tag", t |-> t, b |-> b, k |-> k, force |-> f])
  /\ tags' = tags \cup {t}
  /\ UNCHANGED nsaves

TagDel(t, f) ==
  /\ Emit([op |-> "tagdel", t |-> t, force |-> f])
  /\ tags' = tags \ {t}
  /\ UNCHANGED nsaves

Gc(thr) == /\ \E b \in Branches : nsaves[b] > 0
           /\ Emit([op |-> "gc", thr |-> thr])
           /\ UNCHANGED <<nsaves, tags>>

Plain(n) == Emit([op |-> n]) /\ UNCHANGED <<nsaves, tags>>

Dup(c) == Emit([op |-> "dup", c |-> c]) /\ UNCHANGED <<nsaves, tags>>

Step ==
  /\ Len(hist) < MaxLen
  /\ done' = FALSE
  /\ \/ \E b \in Branches, c \in 1..NContents, how \in {"save", "split"} : Save(b, c, how)
     \/ \E b \in Branches : \E ks \in SUBSET (1..nsaves[b]) : Rm(b, ks)
     \/ \E b1, b2 \in Branches : \E ks1 \in SUBSET (1..nsaves[b1]),
                                   ks2 \in SUBSET (1..nsaves[b2]) :
           Rm2(b1, b2, ks1, ks2, ks2 = {})
     \/ \E b \in Branches : RmBranch(b)
     \/ \E t \in Tags, b \in Branches, f \in BOOLEAN : \E k \in 1..nsaves[b] : Tag(t, b, k, f)
     \/ \E t \in Tags, f \in BOOLEAN : t \in tags /\ TagDel(t, f)
     \/ \E t \in Tags : t \notin tags /\ TagDel(t, FALSE)
     \/ \E thr \in {0, 1, 10, 30, 50, 70, 100} : Gc(thr)
     \/ \E n \in {"midx", "midxf", "bloom", "rmbad", "taglist", "tagbad", "gcagain", "lose"} : Plain(n)
     \/ \E c \in 1..NContents : Dup(c)

\* The only successor of a finished script (so it's printed once).
Finish ==
  /\ Len(hist) = MaxLen /\ ~done
  /\ PrintT("@@" \o ToJson(hist))
  /\ done' = TRUE
  /\ UNCHANGED <<hist, nsaves, tags>>

Next == Step \/ Finish

Spec == Init /\ [][Next]_vars
=============================================================================
