------------------------------- MODULE Index -------------------------------
(* The index and incremental saves (lib/bup/index.py, cmd/index.py, cmd/save.py).

   One directory with some files.  Time is discrete: file timestamps have the grain of a
   tick, which is what makes "index, then edit within the same tick" interesting.
   Indexing is not atomic: it waits for the next tick, and then stats the files one by one
   while other programs may change them. *)
EXTENDS Common

CONSTANTS Paths, Contents, MaxTick, MaxWrites,
          ClampTimes,    \* limit recorded times to one tick before the index began (tmax)
          CompareCtime,  \* does stale() look at the ctime?
          CheckRepo,     \* does save check that the repository has what the index mentions?
          InvalidateDirs \* does a change invalidate the parent directory's entry?

None == "none"
VARIABLES now, fs, idx, dir, repo, trees, snap, clean, pc, todo, tmax, writes, ino
vars == <<now, fs, idx, dir, repo, trees, snap, clean, pc, todo, tmax, writes, ino>>

NoFile == [c |-> 0, mt |-> 0, ct |-> 0, ino |-> 0]
NoEntry == [mt |-> 0, ct |-> 0, ino |-> 0, ex |-> FALSE, valid |-> FALSE, sha |-> 0]

Tree(f) == [p \in Paths |-> f[p].c]

Init ==
  /\ now = 1
  /\ fs = [p \in Paths |-> NoFile]
  /\ idx = [p \in Paths |-> NoEntry]
  /\ dir = [valid |-> FALSE, sha |-> <<>>]    \* the directory's own entry
  /\ repo = {}                                \* contents present
  /\ trees = {}                               \* trees present
  /\ snap = <<>>
  /\ clean = FALSE
  /\ pc = "idle" /\ todo = {} /\ tmax = 0
  /\ writes = 0 /\ ino = 0

Change(p, f) ==
  /\ writes < MaxWrites /\ writes' = writes + 1
  /\ fs' = [fs EXCEPT ![p] = f]
  /\ clean' = FALSE /\ snap' = <<>>
  /\ UNCHANGED <<now, idx, dir, repo, trees, pc, todo, tmax>>

\* In place; keep: the mtime is put back afterwards.
WriteInPlace(p, c, keep) ==
  /\ fs[p].ino # 0
  /\ Change(p, [fs[p] EXCEPT !.c = c, !.ct = now, !.mt = IF keep THEN @ ELSE now])
  /\ UNCHANGED ino

\* A new inode takes over the name (with the old mtime, perhaps).
Replace(p, c, keep) ==
  /\ ino' = ino + 1
  /\ Change(p, [c |-> c, mt |-> IF keep /\ fs[p].ino # 0 THEN fs[p].mt ELSE now,
                ct |-> now, ino |-> ino'])

Remove(p) == fs[p].ino # 0 /\ Change(p, NoFile) /\ UNCHANGED ino

Tick == /\ now < MaxTick /\ now' = now + 1
        /\ UNCHANGED <<fs, idx, dir, repo, trees, snap, clean, pc, todo, tmax, writes, ino>>

Clamp(t) == IF ClampTimes /\ t > tmax THEN tmax ELSE t

IndexBegin ==
  /\ pc = "idle" /\ now < MaxTick
  /\ now' = now + 1
  /\ tmax' = now         \* now' - 1
  /\ pc' = "index" /\ todo' = Paths
  /\ clean' = TRUE /\ snap' = <<>>
  /\ UNCHANGED <<fs, idx, dir, repo, trees, writes, ino>>

Stale(e, f) == \/ ~e.ex \/ e.sha = 0
               \/ e.mt # f.mt \/ e.ino # f.ino
               \/ CompareCtime /\ e.ct # f.ct

IndexStat(p) ==
  LET e == idx[p]  f == fs[p]
  IN /\ pc = "index" /\ p \in todo
     /\ todo' = todo \ {p}
     /\ IF f.ino = 0
        THEN /\ idx' = [idx EXCEPT ![p].ex = FALSE, ![p].valid = FALSE]
             /\ dir' = IF e.ex /\ InvalidateDirs THEN [dir EXCEPT !.valid = FALSE] ELSE dir
        ELSE IF Stale(e, f)
        THEN /\ idx' = [idx EXCEPT ![p] = [mt |-> Clamp(f.mt), ct |-> Clamp(f.ct),
                                           ino |-> f.ino, ex |-> TRUE, valid |-> FALSE,
                                           sha |-> e.sha]]
             /\ dir' = IF InvalidateDirs THEN [dir EXCEPT !.valid = FALSE] ELSE dir
        ELSE UNCHANGED <<idx, dir>>
     /\ UNCHANGED <<now, fs, repo, trees, snap, clean, pc, tmax, writes, ino>>

IndexEnd ==
  /\ pc = "index" /\ todo = {}
  /\ pc' = "idle"
  /\ UNCHANGED <<now, fs, idx, dir, repo, trees, snap, clean, todo, tmax, writes, ino>>

Has(x) == CheckRepo => x \in repo
HasTree(x) == CheckRepo => x \in trees

\* Save is atomic here: what changes after the index run isn't promised anyway.
Save ==
  LET whole == dir.valid /\ HasTree(dir.sha)
      saved(p) == idx[p].valid /\ Has(idx[p].sha)
      id(p) == IF ~idx[p].ex THEN 0
               ELSE IF saved(p) THEN idx[p].sha ELSE fs[p].c
      tree == IF whole THEN dir.sha ELSE [p \in Paths |-> id(p)]
  IN /\ pc = "idle" /\ \E p \in Paths : idx[p].ex
     /\ \A p \in Paths : idx[p].ex /\ ~saved(p) => fs[p].ino # 0   \* errors: see S04
     /\ snap' = tree
     /\ trees' = trees \cup {tree}
     /\ repo' = IF whole THEN repo
                ELSE repo \cup { tree[p] : p \in { q \in Paths : idx[q].ex /\ ~saved(q) } }
     /\ idx' = IF whole THEN idx
               ELSE [p \in Paths |-> IF idx[p].ex
                       THEN [idx[p] EXCEPT !.valid = TRUE, !.sha = tree[p]] ELSE idx[p]]
     /\ dir' = [valid |-> TRUE, sha |-> tree]
     /\ UNCHANGED <<now, fs, clean, pc, todo, tmax, writes, ino>>

\* Everything is removed and collected, or the next save goes to another repository.
Forget == /\ pc = "idle" /\ repo # {} /\ repo' = {} /\ trees' = {} /\ snap' = <<>>
          /\ UNCHANGED <<now, fs, idx, dir, clean, pc, todo, tmax, writes, ino>>

Clear == /\ pc = "idle" /\ idx' = [p \in Paths |-> NoEntry]
         /\ dir' = [valid |-> FALSE, sha |-> <<>>] /\ clean' = FALSE /\ snap' = <<>>
         /\ UNCHANGED <<now, fs, repo, trees, pc, todo, tmax, writes, ino>>

Next ==
  \/ \E p \in Paths, c \in Contents, k \in BOOLEAN : WriteInPlace(p, c, k) \/ Replace(p, c, k)
  \/ \E p \in Paths : Remove(p) \/ IndexStat(p)
  \/ Tick \/ IndexBegin \/ IndexEnd \/ Save \/ Forget \/ Clear

Spec == Init /\ [][Next]_vars

\* S02
SnapshotExact == (snap # <<>> /\ clean) => snap = Tree(fs)
\* What a snapshot needs is in the repository.
SnapshotComplete == snap # <<>> => \A p \in Paths : snap[p] = 0 \/ snap[p] \in repo
=============================================================================
