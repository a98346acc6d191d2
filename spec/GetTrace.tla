-------------------------------- MODULE GetTrace --------------------------------
(* Checks recorded gets against Get.tla (T01).
   T: info, kids.  A get: ts (targets), src and dst: the repositories [objs, refs] before; src2, dst2:
   after; rc; mine: the new commits, committed by this command's user and at its time; fresh: those also
   authored so; rdst: whether the destination is remote; ref order: the
   ids printed (out) with which options (c, t, g). *)
EXTENDS TraceBase, Get
Info == T.info
Refs(s) == [n \in { x.r : x \in SetOf(s.refs) } |-> Value(Info, (CHOOSE x \in SetOf(s.refs) : x.r = n).o)]
Oids(s) == [n \in { x.r : x \in SetOf(s.refs) } |-> (CHOOSE x \in SetOf(s.refs) : x.r = n).o]
Objs(s) == SetOf(s.objs)

Same(v, w, mine, fresh) ==   \* v as wanted
  /\ (v.o # 0 => w.o = v.o)
  /\ (v.o = 0 => w.o \in mine)
  /\ Len(v.h) = Len(w.h)
  /\ \A k \in DOMAIN v.h :
        /\ w.h[k].t = v.h[k].t
        /\ (v.h[k].o # 0 => w.h[k].o = v.h[k].o)
        /\ (v.h[k].o = 0 => w.h[k].o \in mine)
        /\ IF v.h[k].m # 0 THEN w.h[k].m = v.h[k].m ELSE w.h[k].o \in fresh

\* What's printed; 0 for anything
RECURSIVE Printed(_, _, _)
Printed(e, R, ts) ==
  IF ts = <<>> THEN <<>>
  ELSE LET t == Head(ts)
           d == Dest(t)
           R2 == Apply(Info, R, t)
       IN (IF t.m = "unnamed" THEN <<>>
           ELSE IF d.k = "tag" THEN (IF e.g THEN <<R2[d.r].o>> ELSE <<>>)
           ELSE (IF e.t THEN <<R2[d.r].h[1].t>> ELSE <<>>) \o (IF e.c THEN <<R2[d.r].o>> ELSE <<>>))
          \o Printed(e, R2, Tail(ts))

\* What must be read from the source: all that's needed and not in the destination
RECURSIVE Need(_, _, _)
Need(seen, f, have) == IF f = {} THEN seen
                       ELSE Need(seen \cup f, (((UNION { SetOf(T.kids[o]) : o \in f }) \ seen) \ f) \ have, have)
RECURSIVE Have(_, _, _, _)
Have(seen, f, src, dst) == IF f = {} THEN seen
                           ELSE Have(seen \cup f, (((UNION { SetOf(T.kids[o]) : o \in f \ dst }) \ seen) \ f) \cap src, src, dst)
GetClauses(e) ==
  LET R == Refs(e.dst)
      res == ApplyAll(Info, R, e.ts)
      S == Refs(e.dst2)
      mine == SetOf(e.mine)
      roots == UNION { Roots(Info, t) : t \in SetOf(e.ts) }
      need == Need({}, roots \ Objs(e.dst), Objs(e.dst))
      ok == res.ok /\ need \subseteq Objs(e.src)
      lax == { t.src.o : t \in { u \in SetOf(e.ts) : u.im /\ u.src.o # 0 } }
      part == Have({}, lax \cap Objs(e.src), Objs(e.src), Objs(e.dst))   \* what there is of them
      lacking == \E t \in SetOf(e.ts) : t.im /\ (t.src.o = 0 \/ ~(Need({}, {t.src.o}, {}) \subseteq Objs(e.src)))
      closed == \A o \in Objs(e.dst) : SetOf(T.kids[o]) \subseteq Objs(e.dst)
      want == Printed(e, R, e.ts)
      \* A client doesn't know all that a remote destination has, and may ask the source for more
      most == Need({}, roots, {})
  IN << <<"T01.rc", IF ok /\ (lacking \/ (e.rdst /\ ~(most \subseteq Objs(e.src)))) THEN TRUE ELSE (e.rc = 0) <=> ok>>,
        <<"T01.refused", e.rc # 0 => Oids(e.dst2) = Oids(e.dst)>>,
        <<"T01.source", Oids(e.src2) = Oids(e.src) /\ Objs(e.src2) = Objs(e.src) /\ e.src2.packs = e.src.packs>>,
        <<"T01.kept", Objs(e.dst) \subseteq Objs(e.dst2)>>,
        <<"T01.valid", e.problems = <<>> >>,
        <<"T01.refs", (e.rc = 0 /\ res.ok) =>
             /\ DOMAIN S = DOMAIN res.R
             /\ \A n \in DOMAIN S : Same(res.R[n], S[n], mine, SetOf(e.fresh))>>,
        <<"T01.part", res.ok /\ need \subseteq Objs(e.src) /\ (e.rc = 0 \/ lacking) => part \subseteq Objs(e.dst2)>>,
        <<"T01.whole", (e.rc = 0 /\ res.ok /\ closed) => Reach(T.kids, roots \cup { S[n].o : n \in DOMAIN S }) \subseteq Objs(e.dst2)>>,
        <<"T01.printed", (e.rc = 0 /\ res.ok) =>
             Len(e.out) = Len(want) /\ \A k \in DOMAIN want : want[k] = 0 \/ want[k] = e.out[k]>> >>
Clauses(e) == GetClauses(e)
Init == BaseInit
Next == BaseNext(Clauses)
Spec == Init /\ [][Next]_base
================================================================================
