-------------------------------- MODULE Repo --------------------------------
(* The design of a bup repository: packs of objects, branches made of saves, tags,
   and the commands that change them, at the grain of their visible steps (a pack
   appearing, a reference changing, a pack disappearing), with a crash possible
   between any two of them.

   A save's content is a set of parts.  Part p is stored as a blob Blob(p); a save
   with content c has a tree Tree(c); a commit Commit(n) has a tree and a parent. *)
EXTENDS Common

CONSTANTS Branches, Tags, Parts, MaxCommits, MaxPacks,
          BloomFalse,      \* may a dead blob be considered live? (filter collisions)
          AllowCrash,
          EarlyDelete      \* TRUE: a broken gc that deletes before writing

VARIABLES commits,   \* sequence of [c |-> content, parent |-> 0 or commit number, stamp |-> id]
          refs,      \* function: Branches \cup Tags -> 0 (absent) or commit number
          packs,     \* set of sets of objects
          job        \* what the running command still has to do
vars == <<commits, refs, packs, job>>

Contents == (SUBSET Parts) \ {{}}
Blob(p) == <<"blob", p>>
Tree(c) == <<"tree", c>>
Commit(n) == <<"commit", n>>

Kids(o) ==
  CASE o[1] = "blob" -> {}
    [] o[1] = "tree" -> { Blob(p) : p \in o[2] }
    [] o[1] = "commit" -> { Tree(commits[o[2]].c) }
                          \cup (IF commits[o[2]].parent = 0 THEN {}
                                ELSE { Commit(commits[o[2]].parent) })

RECURSIVE Closure(_, _)
Closure(seen, front) ==
  IF front = {} THEN seen
  ELSE Closure(seen \cup front, (UNION { Kids(o) : o \in front }) \ (seen \cup front))

Objs == UNION packs
RefRoots == { Commit(refs[r]) : r \in { x \in DOMAIN refs : refs[x] # 0 } }
Live == Closure({}, RefRoots)

Idle == [k |-> "idle"]

Init == /\ commits = <<>>
        /\ refs = [r \in Branches \cup Tags |-> 0]
        /\ packs = {}
        /\ job = Idle

-----------------------------------------------------------------------------
(* History of a branch, newest first. *)
RECURSIVE Hist(_)
Hist(n) == IF n = 0 THEN <<>> ELSE <<n>> \o Hist(commits[n].parent)

NewPack(objs) == packs \cup (IF objs \subseteq Objs THEN {} ELSE { objs \ Objs })

(* save / split: the pack(s) appear, then the reference changes. *)
SaveStart(b, c) ==
  /\ job = Idle /\ Len(commits) < MaxCommits /\ Cardinality(packs) < MaxPacks
  /\ LET n == Len(commits) + 1
     IN /\ commits' = Append(commits, [c |-> c, parent |-> refs[b], stamp |-> n])
        /\ job' = [k |-> "ref", r |-> b, from |-> refs[b], to |-> n,
                   need |-> { Blob(p) : p \in c } \cup {Tree(c), Commit(n)}]
        /\ UNCHANGED <<refs, packs>>

WritePack ==
  /\ job.k = "ref"
  /\ job.need # {}
  /\ packs' = NewPack(job.need)
  /\ job' = [job EXCEPT !.need = {}]
  /\ UNCHANGED <<commits, refs>>

SetRef ==
  /\ job.k = "ref" /\ job.need = {}
  /\ refs' = [refs EXCEPT ![job.r] = IF refs[job.r] = job.from THEN job.to ELSE @]
  /\ job' = Idle
  /\ UNCHANGED <<commits, packs>>

(* rm: rewrite the saves after the removed ones, or drop the branch. *)
Filtered(b, drop) == SelectSeq(Hist(refs[b]), LAMBDA n : n \notin drop)

RECURSIVE Rewrite(_, _, _)   \* oldest-first list of commits to put after parent
Rewrite(cs, todo, parent) ==
  IF todo = <<>> THEN <<cs, parent>>
  ELSE LET n == Head(todo)
       IN IF cs[n].parent = parent
          THEN Rewrite(cs, Tail(todo), n)
          ELSE Rewrite(Append(cs, [c |-> cs[n].c, parent |-> parent, stamp |-> cs[n].stamp]),
                       Tail(todo), Len(cs) + 1)

Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

RmStart(b, drop) ==
  /\ job = Idle /\ refs[b] # 0 /\ drop # {} /\ drop \subseteq SetOf(Hist(refs[b]))
  /\ Cardinality(packs) < MaxPacks
  /\ LET keep == Filtered(b, drop)
         rw == Rewrite(commits, Reverse(keep), 0)
     IN /\ Len(rw[1]) <= MaxCommits
        /\ commits' = rw[1]
        /\ job' = [k |-> "ref", r |-> b, from |-> refs[b], to |-> rw[2],
                   need |-> { Commit(n) : n \in (Len(commits) + 1)..Len(rw[1]) }]
        /\ UNCHANGED <<refs, packs>>

TagSet(t, n, force) ==
  /\ job = Idle /\ n \in 1..Len(commits) /\ Commit(n) \in Live
  /\ refs[t] = 0 \/ force
  /\ refs' = [refs EXCEPT ![t] = n]
  /\ UNCHANGED <<commits, packs, job>>

TagDelete(t) ==
  /\ job = Idle /\ refs[t] # 0
  /\ refs' = [refs EXCEPT ![t] = 0]
  /\ UNCHANGED <<commits, packs, job>>

(* A pack that duplicates objects other packs have (an interrupted or concurrent
   save, or a pack copied from elsewhere). *)
DupPack(objs) ==
  /\ job = Idle /\ objs # {} /\ objs \subseteq Objs /\ objs \notin packs
  /\ Cardinality(packs) < MaxPacks
  /\ packs' = packs \cup {objs}
  /\ UNCHANGED <<commits, refs, job>>

(* gc: mark, then visit each pack; deletes follow the pack that replaces them. *)
GcMark(thr, alsoLive) ==
  /\ job = Idle
  /\ alsoLive \subseteq { o \in Objs : o[1] = "blob" }
  /\ ~BloomFalse => alsoLive = {}
  /\ job' = [k |-> "gc", live |-> Live \cup alsoLive, todo |-> packs, stale |-> {},
             pending |-> {}, thr |-> thr]
  /\ UNCHANGED <<commits, refs, packs>>

Dead(p) == p \ job.live
MustRewrite(p) ==
  \/ \E o \in Dead(p) : o[1] # "blob"
  \/ 100 * Cardinality(Dead(p)) >= job.thr * Cardinality(p) /\ Dead(p) # {}

GcVisit(p) ==
  /\ job.k = "gc" /\ p \in job.todo
  /\ job' = IF MustRewrite(p)
            THEN [job EXCEPT !.todo = @ \ {p}, !.stale = @ \cup {p},
                             !.pending = @ \cup (p \cap job.live)]
            ELSE [job EXCEPT !.todo = @ \ {p}]
  /\ UNCHANGED <<commits, refs, packs>>

GcWrite ==   \* the new pack appears (at the end, or when it's big enough)
  /\ job.k = "gc" /\ job.pending # {}
  /\ packs' = packs \cup {job.pending}
  /\ job' = [job EXCEPT !.pending = {}, !.stale = @ \ {job.pending}]
  /\ UNCHANGED <<commits, refs>>

GcDelete(p) ==
  /\ job.k = "gc" /\ p \in job.stale
  /\ EarlyDelete \/ job.pending = {}
  /\ packs' = packs \ {p}
  /\ job' = [job EXCEPT !.stale = @ \ {p}]
  /\ UNCHANGED <<commits, refs>>

GcDone ==
  /\ job.k = "gc" /\ job.todo = {} /\ job.pending = {} /\ job.stale = {}
  /\ job' = Idle
  /\ UNCHANGED <<commits, refs, packs>>

Crash ==
  /\ AllowCrash /\ job # Idle
  /\ job' = Idle
  /\ UNCHANGED <<commits, refs, packs>>

Next ==
  \/ \E b \in Branches, c \in Contents : SaveStart(b, c)
  \/ WritePack
  \/ SetRef
  \/ \E b \in Branches, drop \in SUBSET (1..MaxCommits) : RmStart(b, drop)
  \/ \E t \in Tags, n \in 1..MaxCommits, f \in BOOLEAN : TagSet(t, n, f)
  \/ \E t \in Tags : TagDelete(t)
  \/ \E p \in packs, o \in Objs : DupPack({o}) \/ DupPack(p \cup {o})
  \/ \E thr \in {0, 50, 100}, x \in SUBSET { o \in Objs : o[1] = "blob" } : GcMark(thr, x)
  \/ \E p \in packs : GcVisit(p) \/ GcDelete(p)
  \/ GcWrite
  \/ GcDone
  \/ Crash

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The properties. *)

\* Every reference's closure is present, at every step (so also after a crash).
NoDangling == Live \subseteq Objs

\* When a collection has finished, only live objects, and packs that weren't worth
\* rewriting, remain.
GcCollected ==
  (job.k = "gc" /\ job.todo = {} /\ job.pending = {} /\ job.stale = {}) =>
     /\ \A o \in Objs : o[1] # "blob" => o \in Live
     /\ \A p \in packs : ~MustRewrite(p)

\* A reference never changes except to what its command computed, from what it read.
OnlyAsAsked == [][\A r \in DOMAIN refs : refs'[r] # refs[r] =>
                     \/ job.k = "ref" /\ job.r = r /\ refs[r] = job.from /\ refs'[r] = job.to
                     \/ r \in Tags /\ job = Idle]_vars

\* What rm keeps has the same content and stamps in the same order.
RmKeeps == [][(job = Idle /\ job'.k = "ref" /\ commits' # commits) =>
                LET before == Hist(job'.from)
                    after == [i \in DOMAIN Hist(job'.from) |-> 0]
                IN \A i \in 1..Len(commits) : commits'[i] = commits[i]]_vars
=============================================================================
