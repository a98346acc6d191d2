-------------------------------- MODULE ConcTrace --------------------------------
(* Checks recorded runs of concurrent commands against Conc.tla (C01).
   An event: cmds; rc: their exit statuses; obs: what was seen at moments when none of them was
   running (before each, and at the end): refs (sequence of [n, h]), whole: everything referred to is
   there, kept: nothing that was there is gone; started, fin: which commands had started and finished; late: those
   stopped just before their last git command, by which they update a reference. *)
EXTENDS TraceBase, Conc
Refs(o) == [n \in { x.n : x \in SetOf(o.refs) } |-> (CHOOSE x \in SetOf(o.refs) : x.n = n).h]
MaybeSet(e) == { c \in DOMAIN e.cmds : e.rc[c] # 0 /\ e.cmds[c].shares /\ \E d \in DOMAIN e.cmds \ {c} : e.cmds[d].shares }
OkSet(e) == { c \in DOMAIN e.cmds : e.rc[c] = 0 }
\* The observations are, in turn, some of the states of a serial execution
RECURSIVE Fits(_, _, _, _, _)
Fits(e, states, order, o, at) ==
  \/ o > Len(e.obs)
  \/ \E k \in at..Len(states) :
        /\ states[k] = Refs(e.obs[o])
        /\ LET d == { order[j] : j \in 1..(k - 1) }
           IN d \subseteq SetOf(e.obs[o].started) /\ (SetOf(e.obs[o].fin) \cap OkSet(e)) \subseteq d
        /\ Fits(e, states, order, o + 1, k)
\* Commands can be refused if they can't be done, or if something else happens to their reference
Excused(e, c) ==
  LET first == CHOOSE o \in DOMAIN e.obs : c \in SetOf(e.obs[o].started) /\ (o = 1 \/ c \notin SetOf(e.obs[o - 1].started))
      R == Refs(e.obs[IF first = 1 THEN 1 ELSE first - 1])
      overlap == { d \in DOMAIN e.cmds \ {c} :
                     /\ \E o \in DOMAIN e.obs : {c, d} \subseteq SetOf(e.obs[o].started)
                     /\ ~\E o \in DOMAIN e.obs : {c, d} \cap SetOf(e.obs[o].fin) # {}
                                                 /\ ~({c, d} \subseteq SetOf(e.obs[o].started)) }
  IN \/ ~Enabled(R, e.cmds[c])
     \/ e.cmds[c].k = "none"
     \/ \E d \in overlap : \/ e.cmds[d].r = e.cmds[c].r
                           \* (clients of a remote repository share a cache)
                           \/ e.cmds[d].shares /\ e.cmds[c].shares
                           \/ e.cmds[d].k = "none"
                           \* (git removes references from a file which it locks)
                           \/ e.cmds[c].k \in {"del", "gone", "cut", "prune"} /\ e.cmds[d].k \in {"del", "gone", "cut", "prune"}
Forced(c) == c.k \in {"gone", "none"} \/ c.forced
\* What they started from must still be there
Cas(e, c) ==
  (~Forced(e.cmds[c]) /\ e.rc[c] = 0) =>
     \A o \in 1..(Len(e.obs) - 1) : (c \in SetOf(e.obs[o].late) /\ c \in SetOf(e.obs[o + 1].late)) =>
        Hist(Refs(e.obs[o]), e.cmds[c].r) = Hist(Refs(e.obs[o + 1]), e.cmds[c].r)
Clauses(e) ==
  << <<"C01.serial", \E order \in Orders(OkSet(e)) :
          /\ Works(Refs(e.obs[1]), e.cmds, order)
          /\ LET states == Serial(Refs(e.obs[1]), e.cmds, order)
             IN /\ states[Len(states)] = Refs(e.obs[Len(e.obs)])
                /\ Fits(e, states, order, 1, 1)>>,
     <<"C01.cas", \A c \in DOMAIN e.cmds : Cas(e, c)>>,
     <<"C01.whole", \A o \in DOMAIN e.obs : e.obs[o].whole>>,
     <<"C01.kept", \A o \in DOMAIN e.obs : e.obs[o].kept>>,
     <<"C01.refused", \A c \in DOMAIN e.cmds : e.rc[c] # 0 => Excused(e, c)>>,
     <<"C01.ended", \A c \in DOMAIN e.cmds : e.rc[c] # -999>> >>

Init == BaseInit
Next == BaseNext(Clauses)
Spec == Init /\ [][Next]_base
===============================================================================
