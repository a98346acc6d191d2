------------------------------- MODULE StoreMC -------------------------------
(* The protocols by which bup writes packs, updates references and collects garbage, as sequences
   of operations on files, which may be interrupted anywhere: by a kill, after which another
   command starts, or by a power failure, after which only what's firm may be left (each name
   that isn't may be there or not, and files that aren't clean may have any content).

   Objects are the contents and the commits of sets of them.
   Every command works on what is there when it starts, as bup does: objects in an index are
   not written again. *)
EXTENDS Store
CONSTANTS Contents, MaxCmds, MaxFaults,
          RefsFirst,     \* update the reference before the pack has its name
          IdxFirst,      \* name the index before the pack
          NoDirSync,     \* don't sync the directory
          NoFileSync,    \* don't sync the index
          RemoveFirst,   \* gc removes the old packs before the new one is there
          PackFirst      \* gc removes the pack before its index (which bup may do)
VARIABLES s, objs, refs, prog, next, ncmds, nfaults, gcdue

vars == <<s, objs, refs, prog, next, ncmds, nfaults, gcdue>>
PD == "pack"
PName(k) == [d |-> PD, b |-> <<"p", k>>]
IName(k) == [d |-> PD, b |-> <<"i", k>>]
TP(k) == [d |-> "tmp", b |-> <<"p", k>>]
TI(k) == [d |-> "tmp", b |-> <<"i", k>>]
\* objs[k]: what pack k holds (from when it's written); packs 1..next-1
Packs == { [p |-> PName(k), i |-> IName(k), objs |-> objs[k]] : k \in DOMAIN objs }
Commit(c) == 10 + (IF 1 \in c THEN 1 ELSE 0) + (IF 2 \in c THEN 2 ELSE 0)
Need(c) == IF c = {} THEN {} ELSE {Commit(c)} \cup c
Have == UNION { objs[k] : k \in { j \in DOMAIN objs : IName(j) \in DOMAIN s.dir } }

NoRef == {}
Init == /\ s = Empty /\ objs = <<>> /\ refs = NoRef /\ prog = <<>> /\ next = 1
        /\ ncmds = 0 /\ nfaults = 0 /\ gcdue = FALSE

Op(o, a, b) == [o |-> o, a |-> a, b |-> b]
\* Writing pack k
WritePack(k) ==
  <<Op("create", TP(k), 2 * k), Op("write", TP(k), 0), Op("sync", TP(k), 0),
    Op("create", TI(k), 2 * k + 1), Op("write", TI(k), 0)>>
  \o (IF NoFileSync THEN <<>> ELSE <<Op("sync", TI(k), 0)>>)
  \o (IF IdxFirst THEN <<Op("rename", TI(k), IName(k)), Op("rename", TP(k), PName(k))>>
      ELSE <<Op("rename", TP(k), PName(k)), Op("rename", TI(k), IName(k))>>)
  \o (IF NoDirSync THEN <<>> ELSE <<Op("syncdir", PD, 0)>>)
\* Saving content c on top of the reference (whose object keeps what it had)
Save ==
  /\ ~gcdue
  /\ \E c \in SUBSET Contents \ {{}} :
       LET new == Need(c) \ Have
       IN /\ objs' = Append(objs, new)
          /\ prog' = IF RefsFirst THEN <<Op("ref", c, 0)>> \o WritePack(next)
                     ELSE WritePack(next) \o <<Op("ref", c, 0)>>
          /\ next' = next + 1
  /\ UNCHANGED <<s, refs, nfaults, gcdue>>
Remove == /\ refs # NoRef
          /\ prog' = <<Op("ref", {}, 0)>>
          /\ UNCHANGED <<s, objs, refs, next, nfaults, gcdue>>
RECURSIVE Removals(_)
Removals(K) == IF K = {} THEN <<>>
               ELSE LET k == CHOOSE x \in K : TRUE
                    IN (IF PackFirst THEN <<Op("unlink", PName(k), 0), Op("unlink", IName(k), 0)>>
                        ELSE <<Op("unlink", IName(k), 0), Op("unlink", PName(k), 0)>>) \o Removals(K \ {k})
\* Collecting garbage: what's live moves to a new pack, and then the old ones go.
Gc ==
  LET old == { k \in DOMAIN objs : IName(k) \in DOMAIN s.dir \/ PName(k) \in DOMAIN s.dir }
      live == Need(refs) \cap Seen(s, Packs)
  IN /\ old # {}
     /\ objs' = Append(objs, live)
     /\ prog' = (IF RemoveFirst THEN Removals(old) \o WritePack(next) ELSE WritePack(next) \o Removals(old))
                \o <<Op("done", 0, 0)>>
     /\ next' = next + 1
     /\ gcdue' = TRUE
     /\ UNCHANGED <<s, refs, nfaults>>
Start == /\ prog = <<>> /\ ncmds < MaxCmds
         /\ (Save \/ Remove \/ Gc)
         /\ ncmds' = ncmds + 1

Apply(o) == CASE o.o = "create" -> Create(s, o.a, o.b)
              [] o.o = "write" -> WriteFile(s, o.a)
              [] o.o = "sync" -> SyncFile(s, o.a)
              [] o.o = "syncdir" -> SyncDir(s, o.a)
              [] o.o = "rename" -> Rename(s, o.a, o.b)
              [] o.o = "unlink" -> Unlink(s, o.a)
              [] OTHER -> s
Step == /\ prog # <<>>
        /\ s' = Apply(Head(prog))
        /\ refs' = IF Head(prog).o = "ref" THEN Head(prog).a ELSE refs
        /\ gcdue' = IF Head(prog).o = "done" THEN FALSE ELSE gcdue
        /\ prog' = Tail(prog)
        /\ UNCHANGED <<objs, next, ncmds, nfaults>>
Kill == /\ prog # <<>> /\ nfaults < MaxFaults
        /\ prog' = <<>>
        /\ nfaults' = nfaults + 1
        /\ UNCHANGED <<s, objs, refs, next, ncmds, gcdue>>
\* Only what's firm is left for certain.
Power == /\ nfaults < MaxFaults
         /\ \E keep \in SUBSET { n \in DOMAIN s.dir : ~Firm(s, n) /\ n.d = PD } :
              \* (directories keep the order of changes)
              /\ \A k \in DOMAIN objs : ~IdxFirst /\ IName(k) \in keep /\ PName(k) \in DOMAIN s.dir =>
                                   PName(k) \in keep \/ Firm(s, PName(k))
              /\ LET left == { n \in DOMAIN s.dir : Firm(s, n) } \cup { n \in keep : s.dir[n] \in s.clean }
                 IN s' = [dir |-> [n \in left |-> s.dir[n]], sure |-> left, clean |-> s.clean]
         /\ prog' = <<>>
         /\ nfaults' = nfaults + 1
         /\ UNCHANGED <<objs, refs, next, ncmds, gcdue>>
Next == Start \/ Step \/ Kill \/ Power
Spec == Init /\ [][Next]_vars

need(r) == Need(r)
RefsAre == <<refs>>
KillSafe == Complete(s, Packs, RefsAre, need)
PowerSafe == Durable(s, Packs, RefsAre, need)
\* No index promises what isn't there, except while garbage is to be collected.
NoFalseClaims == (~gcdue /\ prog = <<>>) => Claimed(s, Packs) = {}
=============================================================================
