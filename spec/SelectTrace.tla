------------------------------ MODULE SelectTrace ------------------------------
(* Checks indexings and saves against Select.tla (S03).
   T: chars, top; ev: index (w: what's there, args, ex, rxs, rc, listed) and save (args, m, limit,
   rc; dirs and others: the snapshot's; old: earlier snapshots are as they were). *)
EXTENDS TraceBase, Select
VARIABLES ix
Rx(r) == [lits |-> SetOf(r.lits), bol |-> r.bol, eol |-> r.eol]
After(e) == IF e.op = "index"
            THEN Indexed(T.chars, T.top, ix, SetOf(e.w), SetOf(e.args), SetOf(e.ex), { Rx(r) : r \in SetOf(e.rxs) })
            ELSE ix
IndexClauses(e) ==
  << <<"S03.index-rc", e.rc = 0>>,
     \* (the parents of what's indexed are listed too)
     <<"S03.indexed", e.rc = 0 => LET P == PathsOf(After(e)) IN
        P \subseteq SetOf(e.listed) /\ \A p \in SetOf(e.listed) \ P : \E q \in P : Inside(q, p)>> >>
\* Directories that aren't indexed themselves
Above(S) == UNION { { [p |-> SubSeq(x.p, 1, n), d |-> TRUE, c |-> 0, s |-> 0] : n \in 1..(Len(x.p) - 1) } : x \in S }
SaveClauses(e) ==
  LET args == SetOf(e.args)
      S == Selected(ix, args)
      small == { x \in S : ~Large(x, e.limit) }
      known == \A a \in args : \E x \in ix : x.p = a
      \* (which of the given paths to strip, if they're nested, depends on how they're written)
      plain == e.m.how = "strip" => Reduced(args) = args
      fine == known /\ small # {} /\ ~Clash(e.m, args, S)
  IN << <<"S03.rc", fine => e.rc = 0>>,
        <<"S03.others", (e.rc = 0 /\ plain) => /\ SetOf(e.others) \subseteq Others(e.m, args, S)
                                 /\ Others(e.m, args, small) \subseteq SetOf(e.others)>>,
        <<"S03.dirs", (e.rc = 0 /\ plain) => /\ SetOf(e.dirs) \subseteq Dirs(e.m, args, S \cup { x \in Above(S) : \E a \in args : Begins(x.p, a) }) \cup {<<>>}
                               /\ Dirs(e.m, args, small) \subseteq SetOf(e.dirs)>>,
        <<"S03.old", e.old>> >>
Clauses(e) == CASE e.op = "index" -> IndexClauses(e)
                [] e.op = "save" -> SaveClauses(e)
Init == BaseInit /\ ix = {}
Next == /\ i <= Len(T.ev)
        /\ ix' = After(T.ev[i])
        /\ BaseNext(Clauses)
Spec == Init /\ [][Next]_<<base, ix>>
================================================================================
