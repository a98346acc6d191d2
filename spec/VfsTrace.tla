------------------------------ MODULE VfsTrace ------------------------------
(* Checks recorded lookups in real repositories against Vfs.tla (V01).  A trace has the tree of
   the whole namespace (nodes; names and expected items), and lookups with their results. *)
EXTENDS TraceBase, Vfs

N == T.nodes
NamesOf(at) == [k \in 1..(Len(at) - 1) |-> N[at[k + 1]].n]

Start(e) == IF e.from = <<>> THEN [st |-> "ok", at |-> <<1>>]
            ELSE Resolve(N, <<1>>, FALSE, e.from, TRUE)
IsDir(at) == N[at[Len(at)]].k = "d"

\* The outcome the lookup must have.
Want(e) == LET s == Start(e)
           IN IF s.st = "ok" /\ ~IsDir(s.at) THEN [st |-> "notdir", at |-> s.at]
              ELSE Resolve(N, s.at, e.abs, e.comps, e.follow)

Found(e, w) == /\ e.st = "ok"
               /\ e.names = NamesOf(w.at)
               /\ e.item.k = N[w.at[Len(w.at)]].k
               /\ e.item.data = N[w.at[Len(w.at)]].data

ResolveClauses(e) ==
  IF Start(e).st # "ok" THEN << <<"V01.from", e.st \in {"nofrom", Start(e).st}>> >>
  ELSE LET w == Want(e)
       IN IF w.st = "ok" THEN << <<"V01.found", Found(e, w)>> >>
          ELSE << <<"V01.error", e.st = w.st>>,
                  <<"V01.where", w.st = "none" =>
                      /\ Len(e.names) = Len(w.at)
                      /\ SubSeq(e.names, 1, Len(w.at) - 1) = NamesOf(w.at)>> >>

\* try_resolve: as resolve, but broken links stand for themselves
TryClauses(e) ==
  LET w == Resolve(N, <<1>>, TRUE, e.comps, TRUE)
      l == Resolve(N, <<1>>, TRUE, e.comps, FALSE)
  IN IF w.st = "ok" THEN << <<"V01.try", Found(e, w)>> >>
     ELSE IF l.st = "ok" THEN << <<"V01.try-broken", Found(e, l)>> >>
     ELSE << <<"V01.try-error", e.st = l.st>> >>

ListClauses(e) ==
  LET w == Resolve(N, <<1>>, TRUE, e.comps, TRUE)
      d == w.at[Len(w.at)]
  IN IF w.st # "ok" THEN << <<"V01.list-error", e.st = w.st>> >>
     ELSE << <<"V01.list", /\ e.st = "ok"
                           /\ Len(e.ents) = Len(N[d].e) + 1
                           /\ IsNoDup(e.ents)
                           /\ SetOf(e.ents) = {<<".", "d">>} \cup { <<x.n, N[x.id].k>> : x \in SetOf(N[d].e) }>> >>

\* bup ls of a path: the names of what's in a directory, or of the file itself
LsClauses(e) ==
  LET w == Resolve(N, <<1>>, TRUE, e.comps, TRUE)
      d == w.at[Len(w.at)]
      l == Resolve(N, <<1>>, TRUE, e.comps, FALSE)
  IN IF w.st # "ok" /\ l.st = "ok" THEN << <<"V01.ls-broken", e.rc = 0 /\ Len(e.ents) = 1>> >>
     ELSE IF w.st # "ok" THEN << <<"V01.ls-error", e.rc # 0>> >>
     ELSE IF N[d].k = "d"
     THEN << <<"V01.ls", e.rc = 0 /\ Len(e.ents) = Len(N[d].e) + 2 /\ IsNoDup(e.ents)
                         /\ SetOf(e.ents) = {".", ".."} \cup { x.n : x \in SetOf(N[d].e) }>> >>
     ELSE << <<"V01.ls-file", e.rc = 0 /\ Len(e.ents) = 1>> >>

CatClauses(e) ==
  LET w == Resolve(N, <<1>>, TRUE, e.comps, TRUE)
      f == w.at[Len(w.at)]
  IN IF w.st = "ok" /\ N[f].k = "f"
     THEN << <<"V01.cat", e.rc = 0 /\ e.data = N[f].data>> >>
     ELSE << <<"V01.cat-error", e.rc # 0>> >>

Clauses(e) ==
  CASE e.op = "resolve" -> ResolveClauses(e)
    [] e.op = "try" -> TryClauses(e)
    [] e.op = "list" -> ListClauses(e)
    [] e.op = "ls" -> LsClauses(e)
    [] e.op = "cat" -> CatClauses(e)

Spec == BaseInit /\ [][BaseNext(Clauses)]_base
=============================================================================
