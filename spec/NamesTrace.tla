----------------------------- MODULE NamesTrace -----------------------------
(* Checks recorded listings and lookups of saves against Names.tla (V02).  A trace has a time
   zone; each event the branch's saves at the time (newest first), by date and id. *)
EXTENDS TraceBase, Names

Base(e) == [n \in DOMAIN e.saves |-> DateName(T.tz, e.saves[n].t)]
\* (n is Names(Base(e)))
Listing(e, n, dots) ==
  LET want == [k \in DOMAIN n |-> <<n[k], e.saves[k].id>>] \o <<<<"latest", e.saves[1].id>>>>
  IN /\ Len(e.got) = Len(want) + Len(dots)
     /\ SetOf(e.got) = SetOf(want) \cup SetOf(dots)

Clauses(e) ==
  LET n == Names(Base(e)) IN
  CASE e.saves = <<>> -> << <<"V02.gone", e.st = "none">> >>
    [] e.op = "list" -> << <<"V02.list", e.st = "ok" /\ Listing(e, n, <<>>)>>,
                           <<"V02.latest", e.st = "ok" => e.latest = n[1]>> >>
    [] e.op = "ls" -> << <<"V02.ls", e.st = "ok" /\ Listing(e, n, <<>>)>> >>
    [] e.op = "find" ->
         LET K == { k \in DOMAIN n : n[k] = e.name }
         IN IF e.name = "latest" THEN << <<"V02.find-latest", e.st = "ok" /\ e.id = e.saves[1].id>> >>
            ELSE IF K = {} THEN << <<"V02.not-found", e.st = "none">> >>
            ELSE << <<"V02.find", e.st = "ok" /\ e.id = e.saves[CHOOSE k \in K : TRUE].id>> >>

Spec == BaseInit /\ [][BaseNext(Clauses)]_base
=============================================================================
