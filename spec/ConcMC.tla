--------------------------------- MODULE ConcMC ---------------------------------
(* Processes that read a reference, work, and then update it if it's still what they read: the result
   is that of those which succeeded one after the other. *)
EXTENDS Conc
CONSTANTS NoCompare,   \* they don't compare it
          Reread,      \* they compare it to what it is just before updating, instead
          N
VARIABLES R, st, seen, want, done
vars == <<R, st, seen, want, done>>
R0 == [r \in {"a", "b"} |-> IF r = "a" THEN <<1, 2>> ELSE <<3>>]
Cmds == { [k |-> "add", r |-> "a", ids |-> <<10>>, xs |-> <<>>], [k |-> "add", r |-> "a", ids |-> <<11, 12>>, xs |-> <<>>],
          [k |-> "ff", r |-> "a", ids |-> <<1, 2, 20>>, xs |-> <<>>], [k |-> "set", r |-> "a", ids |-> <<30>>, xs |-> <<>>],
          [k |-> "new", r |-> "t", ids |-> <<40>>, xs |-> <<>>], [k |-> "new", r |-> "t", ids |-> <<41>>, xs |-> <<>>],
          [k |-> "del", r |-> "a", ids |-> <<>>, xs |-> <<>>], [k |-> "cut", r |-> "a", ids |-> <<>>, xs |-> <<1>>],
          [k |-> "cut", r |-> "a", ids |-> <<>>, xs |-> <<2>>], [k |-> "prune", r |-> "a", ids |-> <<>>, xs |-> <<1, 2>>],
          [k |-> "gone", r |-> "t", ids |-> <<>>, xs |-> <<>>],
          [k |-> "add", r |-> "b", ids |-> <<50>>, xs |-> <<>>], [k |-> "del", r |-> "b", ids |-> <<>>, xs |-> <<>>] }
Procs == 1..N
cs == [p \in Procs |-> st[p].c]
Init == /\ R = R0 /\ done = <<>> /\ seen = [p \in Procs |-> <<>>] /\ want = [p \in Procs |-> <<>>]
        /\ st \in { [p \in Procs |-> [c |-> f[p], at |-> "idle"]] : f \in [Procs -> Cmds] }
To(p, at) == st' = [st EXCEPT ![p].at = at]
Read(p) == /\ st[p].at = "idle"
           /\ IF Enabled(R, st[p].c)
              THEN To(p, "read") /\ seen' = [seen EXCEPT ![p] = Hist(R, st[p].c.r)] /\ want' = [want EXCEPT ![p] = New(R, st[p].c)]
              ELSE To(p, "failed") /\ UNCHANGED <<seen, want>>
           /\ UNCHANGED <<R, done>>
Work(p) == /\ st[p].at = "read" /\ To(p, "worked")
           /\ seen' = IF Reread THEN [seen EXCEPT ![p] = Hist(R, st[p].c.r)] ELSE seen
           /\ UNCHANGED <<R, want, done>>
Update(p) == /\ st[p].at = "worked"
             /\ IF NoCompare \/ Hist(R, st[p].c.r) = seen[p]
                THEN To(p, "ok") /\ R' = With(R, st[p].c.r, want[p]) /\ done' = Append(done, p)
                ELSE To(p, "failed") /\ UNCHANGED <<R, done>>
             /\ UNCHANGED <<seen, want>>
Next == \E p \in Procs : Read(p) \/ Work(p) \/ Update(p)
Spec == Init /\ [][Next]_vars
\* In fact in the order in which they updated
Serialized == \E o \in Orders(SetOf(done)) : Works(R0, cs, o) /\ Serial(R0, cs, o)[Len(o) + 1] = R
InOrder == Works(R0, cs, done) /\ Serial(R0, cs, done)[Len(done) + 1] = R
\* Somebody succeeds if they can
Progress == (\A p \in Procs : st[p].at \in {"ok", "failed"}) =>
               \A p \in Procs : Enabled(R0, cs[p]) => \E q \in SetOf(done) : cs[q].r = cs[p].r
===============================================================================
