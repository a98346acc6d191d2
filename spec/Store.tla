-------------------------------- MODULE Store --------------------------------
(* The files of a repository as a machine that may stop (D01) or lose power (D02) at any time sees
   them.  s.dir: what the names (records with a directory d) currently stand for (file numbers);
   s.sure: the names whose directory has been synced since they last changed; s.clean: the
   files whose content has been synced since it was last written.
   After a kill there is what s.dir says.  After a power failure, only names in s.sure, standing
   for files in s.clean, can be relied on. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [dir |-> <<>>, sure |-> {}, clean |-> {}]
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]

Create(s, n, f) == [dir |-> (n :> f) @@ s.dir, sure |-> s.sure \ {n}, clean |-> s.clean \ {f}]
WriteFile(s, n) == IF n \in DOMAIN s.dir THEN [s EXCEPT !.clean = @ \ {s.dir[n]}] ELSE s
SyncFile(s, n) == IF n \in DOMAIN s.dir THEN [s EXCEPT !.clean = @ \cup {s.dir[n]}] ELSE s
SyncDir(s, d) == [s EXCEPT !.sure = @ \cup { n \in DOMAIN s.dir : n.d = d }]
Rename(s, a, b) == IF a \in DOMAIN s.dir
                   THEN [s EXCEPT !.dir = (b :> s.dir[a]) @@ Without(s.dir, a), !.sure = @ \ {a, b}]
                   ELSE [s EXCEPT !.dir = Without(s.dir, b), !.sure = @ \ {b}]
Link(s, a, b) == IF a \in DOMAIN s.dir
                 THEN [s EXCEPT !.dir = (b :> s.dir[a]) @@ s.dir, !.sure = @ \ {b}] ELSE s
Unlink(s, n) == [s EXCEPT !.dir = Without(s.dir, n), !.sure = @ \ {n}]

\* packs: [p |-> the pack's name, i |-> its index's, objs]
Seen(s, packs) == UNION { k.objs : k \in { x \in packs : x.p \in DOMAIN s.dir /\ x.i \in DOMAIN s.dir } }
Firm(s, n) == n \in s.sure /\ n \in DOMAIN s.dir /\ s.dir[n] \in s.clean
Kept(s, packs) == UNION { k.objs : k \in { x \in packs : Firm(s, x.p) /\ Firm(s, x.i) } }
\* What an index claims to be there without its pack
Claimed(s, packs) == UNION { k.objs : k \in { x \in packs : x.i \in DOMAIN s.dir } } \ Seen(s, packs)

\* refs: name -> object; need(o): what's reachable from it
Complete(s, packs, refs, need(_)) == \A r \in DOMAIN refs : need(refs[r]) \subseteq Seen(s, packs)
Durable(s, packs, refs, need(_)) == \A r \in DOMAIN refs : need(refs[r]) \subseteq Kept(s, packs)
=============================================================================
