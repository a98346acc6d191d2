------------------------------ MODULE CrashTrace ------------------------------
(* Checks what's left by commands killed at some point, and what happens then (D01).

   T: kids, tree (the tree of a commit, 0 for others), old and new (the references before, and
   after an undisturbed run), kind (what repeating the command does), gc (whether garbage is
   collected, which must be completed before anything else).
   Events: crash (refs, have, claims), again (the command is repeated: rc, refs, have), others
   (further commands: rc), probe (a new save: rc, have, root, ok: its content is as expected). *)
EXTENDS TraceBase
FnOf(q) == [n \in { x.n : x \in SetOf(q) } |-> (CHOOSE x \in SetOf(q) : x.n = n).v]
Get(f, r) == IF r \in DOMAIN f THEN f[r] ELSE 0
Old == FnOf(T.old)
New == FnOf(T.new)
Names == DOMAIN Old \cup DOMAIN New
Used(refs) == Reach(T.kids, { refs[r] : r \in DOMAIN refs })
\* (the message of a commit has the command's arguments)
Same(x, y) == IF x = 0 \/ y = 0 THEN x = y ELSE T.look[x] = T.look[y]
\* The commits of a branch
RECURSIVE Commits(_)
Commits(c) == IF c = 0 THEN {} ELSE {c} \cup UNION { Commits(p) : p \in SetOf(T.parents[c]) }

CrashClauses(e) ==
  LET now == FnOf(e.refs)
  IN << <<"D01.refs", DOMAIN now \subseteq Names /\ \A r \in Names : \/ Get(now, r) = Get(Old, r)
                                                                  \/ Same(Get(now, r), Get(New, r))>>,
        <<"D01.complete", Used(now) \subseteq SetOf(e.have)>>,
        <<"D01.claims", T.gc \/ SetOf(e.claims) \subseteq SetOf(e.have)>> >>

\* What the command does to a reference that it may already have changed
Repeated(now, r, x) ==
  LET c == Get(now, r)
  IN CASE T.kind = "same" -> Same(x, Get(New, r))            \* (it makes no difference)
       [] T.kind = "grow" ->                            \* another commit, like the previous
            IF Get(Old, r) = Get(New, r) THEN x = c
            ELSE IF c = Get(Old, r) THEN Same(x, Get(New, r))
            ELSE x = c \/ (x # 0 /\ c \in Commits(x) /\ T.tree[x] = T.tree[Get(New, r)])
       [] OTHER -> FALSE
AgainClauses(e) ==
  LET before == FnOf(e.before)
      now == FnOf(e.refs)
      done == New # Old /\ DOMAIN before = DOMAIN New /\ \A r \in DOMAIN New : Same(before[r], New[r])
  IN << <<"D01.again-rc", e.rc = 0 \/ (T.oncerc /\ done)>>,
        <<"D01.again-refs", DOMAIN now \subseteq Names /\ \A r \in Names : Repeated(before, r, Get(now, r))>>,
        <<"D01.again-complete", Used(now) \subseteq SetOf(e.have)>>,
        <<"D01.again-claims", SetOf(e.claims) \subseteq SetOf(e.have)>> >>
OtherClauses(e) == << <<"D01.other", e.rc = 0>> >>
ProbeClauses(e) ==
  << <<"D01.probe-rc", e.rc = 0>>,
     <<"D01.probe-complete", e.rc = 0 => Reach(T.kids, {e.root}) \subseteq SetOf(e.have)>>,
     <<"D01.probe-content", e.rc = 0 => e.ok>>,
     <<"D01.probe-refs", e.others>> >>

Clauses(e) ==
  CASE e.op = "crash" -> CrashClauses(e)
    [] e.op = "again" -> AgainClauses(e)
    [] e.op = "other" -> OtherClauses(e)
    [] e.op = "probe" -> ProbeClauses(e)
Spec == BaseInit /\ [][BaseNext(Clauses)]_base
===============================================================================
