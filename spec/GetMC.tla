--------------------------------- MODULE GetMC ---------------------------------
(* Model checks Get.tla's targets (by two, in one command), and the transfer of objects: children
   first, into packs that may be finished at any time, with crashes. *)
EXTENDS Get
CONSTANTS TopDown,   \* TRUE: a broken transfer that stores parents first
          EarlyRef,  \* TRUE: a broken one that sets references before the packs are finished
          Shallow    \* TRUE: a broken ff that ignores the destination's value

\* Source commits 1 <- 2 and 1 <- 3 with trees 4..6, and blob 7
Info == [o \in 1..7 |->
           IF o \in 1..3 THEN [k |-> "c", t |-> o + 3, m |-> 10 + o, p |-> <<0, 1, 1>>[o]]
           ELSE [k |-> IF o < 7 THEN "t" ELSE "b", t |-> 0, m |-> 0, p |-> 0]]
Kids == [o \in 1..7 |-> CASE o \in 1..3 -> {o + 3} \cup ({Info[o].p} \ {0})
                           [] o \in 4..6 -> IF o = 4 THEN {7} ELSE {4, 7}
                           [] OTHER -> {}]
RECURSIVE Clo(_, _)
Clo(seen, f) == IF f = {} THEN seen ELSE Clo(seen \cup f, (UNION { Kids[o] : o \in f }) \ (seen \cup f))
Closure(S) == Clo({}, S \ {0})
VARIABLES R,           \* the destination's references
          disk, mem,   \* its objects, and those in unfinished packs
          todo         \* what the running command still has to do: [ts, new] or <<>>
vars == <<R, disk, mem, todo>>

Names == {"h", "t"}
Srcs == { [k |-> "branch", o |-> 2, r |-> "h", tag |-> FALSE], [k |-> "save", o |-> 1, r |-> "h", tag |-> FALSE],
          [k |-> "commit", o |-> 3, r |-> "t", tag |-> TRUE], [k |-> "tree", o |-> 6, r |-> "", tag |-> FALSE] }
Dsts == { [k |-> "none", r |-> ""], [k |-> "head", r |-> "h"], [k |-> "tag", r |-> "t"] }
Targets == [m : {"ff", "append", "pick", "force-pick", "new-tag", "replace", "unnamed"}, src : Srcs, dst : Dsts, im : {FALSE}]
Known(v) == { x.o : x \in SetOf(v.h) } \ {0}
Short(v) == Len(v.h) <= 2

Init == R = << >> /\ disk = {} /\ mem = {} /\ todo = <<>>

Fine(t) == Allowed(Info, R, t) \/ (Shallow /\ t.m = "ff" /\ SourceOk(t) /\ DestOk(t))
Result(ts) == IF Shallow THEN (IF Len(ts) = 1 /\ Fine(ts[1]) THEN [ok |-> TRUE, R |-> Apply(Info, R, ts[1])] ELSE [ok |-> FALSE, R |-> R])
              ELSE ApplyAll(Info, R, ts)
Start(ts) ==
  /\ todo = <<>>
  /\ LET res == Result(ts)
     IN /\ res.ok
        /\ \A n \in DOMAIN res.R : Short(res.R[n])
        /\ todo' = <<[ts |-> ts, R |-> res.R, need |-> UNION { Roots(Info, ts[k]) : k \in DOMAIN ts }]>>
  /\ UNCHANGED <<R, disk, mem>>

Stored == disk \cup mem
\* Not looking below what's there already
RECURSIVE Want(_, _)
Want(seen, f) == IF f = {} THEN seen
                 ELSE Want(seen \cup f, ((UNION { Kids[o] : o \in f }) \ seen) \ Stored)
Wanted == Want({}, todo[1].need \ Stored)
Store(o) == /\ todo # <<>> /\ o \in Wanted
            /\ TopDown \/ Kids[o] \subseteq Stored
            /\ mem' = mem \cup {o} /\ UNCHANGED <<R, disk, todo>>
Flush == mem # {} /\ disk' = disk \cup mem /\ mem' = {} /\ UNCHANGED <<R, todo>>
Finish == /\ todo # <<>> /\ Wanted = {} /\ (mem = {} \/ EarlyRef)
          /\ R' = todo[1].R /\ todo' = <<>> /\ UNCHANGED <<disk, mem>>
Crash == (todo # <<>> \/ (EarlyRef /\ mem # {})) /\ todo' = <<>> /\ mem' = {} /\ UNCHANGED <<R, disk>>

Next == \/ \E t \in Targets : Start(<<t>>)
        \/ \E t, u \in Targets : /\ todo = <<>> /\ "t" \notin DOMAIN R /\ t.m \in {"append", "pick", "replace"} /\ u.m \in {"ff", "append", "force-pick"}
                                 /\ t.dst.k # "none" /\ u.dst.k # "none" /\ Start(<<t, u>>)
        \/ \E o \in DOMAIN Info : Store(o)
        \/ Flush \/ Finish \/ Crash
Spec == Init /\ [][Next]_vars

\* New commits (o = 0) are complete when their trees are
Needs(v) == Known(v) \cup { x.t : x \in SetOf(v.h) } \cup {v.o}
Whole == \A n \in DOMAIN R : Closure(Needs(R[n])) \subseteq disk
Closed == \A o \in disk : Kids[o] \subseteq Stored
\* No reference loses history except by replacement; heads stay commits
IsSuffix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
Kept == [][\A n \in DOMAIN R :
             /\ n \in DOMAIN R'
             /\ (todo # <<>> /\ \A k \in DOMAIN todo[1].ts : todo[1].ts[k].m # "replace") /\ R'[n] # R[n] =>
                  (n = "t" /\ R[n].h = <<>>) \/ IsSuffix(R[n].h, R'[n].h)]_vars
HeadsAreCommits == "h" \in DOMAIN R => R["h"].h # <<>>
===============================================================================
