----------------------------- MODULE PruneTrace -----------------------------
(* Checks recorded runs of prune-older against Prune.tla (R02).
   Each event has the branches before and after as sequences of saves (newest first;
   id identifies all of a commit but its parent), the other references, and the
   request; for --pretend also what was printed. *)
EXTENDS TraceBase, Prune

Ids(s) == [n \in DOMAIN s |-> s[n].id]
RECURSIVE Picked(_, _, _)
Picked(s, S, n) == IF n > Len(s) THEN <<>>
                   ELSE (IF n \in S THEN <<s[n]>> ELSE <<>>) \o Picked(s, S, n + 1)

Branch(bs, r) == LET X == { x \in SetOf(bs) : x.r = r }
                 IN IF X = {} THEN <<>> ELSE (CHOOSE x \in X : TRUE).saves
Names(bs) == { x.r : x \in SetOf(bs) }
Asked(e) == IF e.roots = <<>> THEN Names(e.pre) ELSE SetOf(e.roots)
Want(e, r) == LET s == Branch(e.pre, r)
              IN IF r \in Asked(e) THEN Picked(s, Keeps(s, e.per, e.end), 1) ELSE s
\* What --pretend prints for a branch: the decisions, newest save first.
Decisions(e, r) == LET s == Branch(e.pre, r)  K == Keeps(s, e.per, e.end)
                   IN [n \in DOMAIN s |-> IF n \in K THEN "+" ELSE "-"]
Said(e, r) == SelectSeq(e.out, LAMBDA x : x.r = r)

Clauses(e) ==
  IF e.bad THEN << <<"R02.refuses", e.rc # 0 /\ e.pre = e.post /\ e.others>> >> ELSE
  << <<"R02.rc", e.rc = 0>>,
     <<"R02.other-refs", e.others>>,
     <<"R02.complete", ~e.missing>>,
     <<"R02.branches", \A r \in Names(e.pre) \cup Names(e.post) :
          (r \in Names(e.post)) = (r \in Names(e.pre) /\ (e.pretend \/ Want(e, r) # <<>>))>>,
     <<"R02.kept", \A r \in Names(e.pre) :
          Ids(Branch(e.post, r)) = Ids(IF e.pretend THEN Branch(e.pre, r) ELSE Want(e, r))>>,
     <<"R02.untouched", \A r \in Names(e.pre) :
          (e.pretend \/ Want(e, r) = Branch(e.pre, r)) => Branch(e.post, r) = Branch(e.pre, r)>>,
     <<"R02.pretend", e.pretend =>
          /\ { x.r : x \in SetOf(e.out) } = { r \in Asked(e) : Branch(e.pre, r) # <<>> }
          /\ \A r \in Asked(e) :
               /\ [n \in DOMAIN Said(e, r) |-> Said(e, r)[n].sign] = Decisions(e, r)
               /\ \A n \in DOMAIN Said(e, r) : Said(e, r)[n].name = Branch(e.pre, r)[n].name>> >>

Spec == BaseInit /\ [][BaseNext(Clauses)]_base
=============================================================================
