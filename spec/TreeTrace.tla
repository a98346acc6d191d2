------------------------------ MODULE TreeTrace ------------------------------
(* Checks recorded saves and restores of whole trees (S01) and of parts of them (X01) against
   Restore.tla.  Trees are sequences of [p, n], n = [k, d, m, u, g, t, x, s]: kind, content or
   target, mode, user and group, mtime, extended attributes, size; h is the class of hard
   links.  users (groups): known ones and their ids. *)
EXTENDS TraceBase, Restore

TreeOf(s) == SetOf(s)
Strip(A) == { [p |-> x.p, n |-> [k |-> x.n.k, d |-> x.n.d, m |-> x.n.m, u |-> x.n.u, g |-> x.n.g,
                                 t |-> x.n.t, x |-> x.n.x]] : x \in A }
Field(A, f) == { <<x.p, x.n[f]>> : x \in A }
Pairs(A) == { x \in A : x.n.h # 0 }
\* Files are linked to one another as they were.
SameLinks(A, B) ==  \* A's classes, B's classes
  LET PA == { {x.p : x \in { y \in Pairs(A) : y.n.h = c }} : c \in { x.n.h : x \in Pairs(A) } }
      PB == { {x.p : x \in { y \in Pairs(B) : y.n.h = c }} : c \in { x.n.h : x \in Pairs(B) } }
  IN { c \in PA : Cardinality(c) > 1 } = { c \in PB : Cardinality(c) > 1 }

SaveClauses(e) ==
  LET W == TreeOf(e.want)  G == TreeOf(e.got)
  IN << <<"S01.save-rc", e.rc = 0>>,
        <<"S01.stored-paths", { x.p : x \in W } = { x.p : x \in G } /\ Len(e.got) = Cardinality(G)>>,
        <<"S01.stored-content", Field(W, "k") = Field(G, "k") /\ Field(W, "d") = Field(G, "d")>>,
        <<"S01.stored-meta", Strip(W) = Strip(G)>> >>
ListClauses(e) ==
  << <<"S01.listing", e.rc = 0 /\ SetOf(e.got) = SetOf(e.want) /\ Len(e.got) = Len(e.want)>> >>

\* Who owns what's restored: names win unless numeric, or id 0
Id(known, name, id, numeric) ==
  IF numeric \/ id = 0 \/ name = "" THEN id
  ELSE LET X == { j \in DOMAIN known : known[j].name = name } IN IF X = {} THEN id ELSE known[CHOOSE j \in X : TRUE].id
Map(m, v) == LET X == { j \in DOMAIN m : m[j].old = v }
             IN IF X = {} THEN v ELSE m[CHOOSE j \in X : \A q \in X : q <= j].new
User(e, n) == Id(T.users, Map(e.maps.user, n.user), Map(e.maps.uid, n.u), e.numeric)
Group(e, n) == Id(T.groups, Map(e.maps.group, n.group), Map(e.maps.gid, n.g), e.numeric)
Restored(e, x) == [x EXCEPT !.n.u = User(e, x.n), !.n.g = Group(e, x.n)]
Key(x) == [p |-> x.p, k |-> x.n.k, d |-> x.n.d]
Meta(x) == [p |-> x.p, m |-> x.n.m, u |-> x.n.u, g |-> x.n.g, t |-> x.n.t, x |-> x.n.x]

RestoreClauses(e) ==
  LET S == { [Restored(e, x) EXCEPT !.p = <<e.root>> \o @] : x \in TreeOf(T.snapshot) }
      O == TreeOf(e.pre)
      G == TreeOf(e.post)
      ex == SetOf(e.ex)
      W == RestoreAll(S, O, e.args, ex)
      new == UNION { { x.p : x \in Chosen(S, e.args[k], ex) } : k \in { j \in DOMAIN e.args : ~e.args[j].bad } }
      WM == { x \in W.t : x.p \in new }
      refused == W.t = {} /\ ~W.ok /\ (O # {} \/ new # {})
  IN IF refused
     THEN << <<"X01.refused-rc", e.rc # 0>>,
             <<"X01.refused-intact", \A y \in O : y.p[1] \notin { p[1] : p \in new } => y \in G>> >>
     ELSE << <<"X01.rc", (e.rc = 0) = W.ok>>,
             <<"X01.paths", { x.p : x \in G } = { x.p : x \in W.t }>>,
             <<"X01.content", { Key(x) : x \in G } = { Key(x) : x \in W.t }>>,
             <<"X01.untouched", \A y \in O : y.p \notin new => \E x \in G : x.p = y.p /\ x.n = y.n>>,
             <<"X01.meta", { Meta(x) : x \in { y \in G : y.p \in new } } = { Meta(x) : x \in WM }>>,
             <<"X01.links", e.simple => SameLinks(WM, { x \in G : x.p \in new })>>,
             <<"X01.outside", e.outside>>,
             <<"X01.dot", e.dot => LET x == CHOOSE x \in S : x.p = e.args[Len(e.args)].p
                                   IN Meta([p |-> <<>>, n |-> e.rootn]) = [Meta(x) EXCEPT !.p = <<>>]>> >>

Clauses(e) ==
  CASE e.op = "save" -> SaveClauses(e)
    [] e.op = "list" -> ListClauses(e)
    [] e.op = "restore" -> RestoreClauses(e)
Spec == BaseInit /\ [][BaseNext(Clauses)]_base
=============================================================================
