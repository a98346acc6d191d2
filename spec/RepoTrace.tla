----------------------------- MODULE RepoTrace -----------------------------
(* Checks recorded behaviours of real repositories against the command-level
   contracts of Repo.tla.  A trace is
     [kids, kind,                          the object graph (by small ids)
      init |-> state, ev |-> <<[op, a, rc, post], ...>>]
   where a state is what an independent reader found on disk:
     packs <<[n, o]>>, refs <<[r, o]>>, hist <<[r, s |-> <<[o, c, m, t, np]>>]>>,
     problems <<...>>.
   Every clause has a name, which starts with the property it belongs to. *)
EXTENDS Common, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, bad
vars == <<tid, i, bad>>

T == Traces[tid]
Kids == T.kids
Kind(o) == T.kind[o]

-----------------------------------------------------------------------------
Objs(s) == UNION { SetOf(p.o) : p \in SetOf(s.packs) }
RefMap(s) == [ r \in { x.r : x \in SetOf(s.refs) } |->
                 (CHOOSE x \in SetOf(s.refs) : x.r = r).o ]
RefNames(s) == { x.r : x \in SetOf(s.refs) }
\* Reachable through what is present.
LivePresent(s) == LET kids == [x \in DOMAIN Kids |-> IF x \in Objs(s) THEN Kids[x] ELSE <<>>]
                  IN Reach(kids, { x.o : x \in SetOf(s.refs) } \ {0})
Roots(s) == { x.o : x \in SetOf(s.refs) }
Live(s) == Reach(Kids, Roots(s) \ {0})
Ref(s, r) == IF r \in RefNames(s) THEN RefMap(s)[r] ELSE 0
Hist(s, r) == LET m == { x \in SetOf(s.hist) : x.r = r }
              IN IF m = {} THEN <<>> ELSE (CHOOSE x \in m : TRUE).s
PackNames(s) == { p.n : p \in SetOf(s.packs) }
PackOf(s, n) == SetOf((CHOOSE p \in SetOf(s.packs) : p.n = n).o)

SameRefsExcept(pre, post, names) ==
  \A r \in (RefNames(pre) \cup RefNames(post)) \ names : Ref(pre, r) = Ref(post, r)
SameRefs(pre, post) == SameRefsExcept(pre, post, {})

\* Content, metadata and number of parents of saves, but not their ids.
CM(h) == [k \in DOMAIN h |-> <<h[k].c, h[k].m, h[k].t>>]
Linear(h) == \A k \in DOMAIN h : h[k].np = (IF k = Len(h) THEN 0 ELSE 1)

Whole(s) == Live(s) \subseteq Objs(s)

\* No object in two packs, among packs that are new; nothing old stored again.
NewPacks(pre, post) == { p \in SetOf(post.packs) : p.n \notin PackNames(pre) }
NoSecondCopy(pre, post) ==
  /\ \A p \in NewPacks(pre, post) : SetOf(p.o) \cap Objs(pre) = {}
  /\ \A p, q \in NewPacks(pre, post) : p.n # q.n => SetOf(p.o) \cap SetOf(q.o) = {}
WithinLimit(pre, post, lim) ==
  lim > 0 => \A p \in NewPacks(pre, post) : Len(p.o) <= lim

-----------------------------------------------------------------------------
\* What every command must respect.
Always(op, pre, post) ==
  << <<"O02.packs-valid", post.problems = <<>> >>,
     <<"G01.closed", Whole(pre) => Whole(post)>>,
     <<"G01.nothing-lost", op # "gc" => Objs(pre) \subseteq Objs(post)>> >>

StoreRel(e, pre, post) ==   \* save or split of content e.a.c to branch e.a.r
  LET h == Hist(post, e.a.r)
      h0 == Hist(pre, e.a.r)
  IN << <<"S.rc", e.rc = 0>>,
        <<"R01.other-refs", SameRefsExcept(pre, post, {e.a.r})>>,
        <<"C01.appended", Len(h) = Len(h0) + 1 /\ Tail(h) = h0>>,
        <<"S01.content", h # <<>> /\ h[1].c = e.a.c>>,
        <<"C01.linear", Linear(h)>>,
        <<"O02.no-second-copy", NoSecondCopy(pre, post)>>,
        <<"O02.limit", WithinLimit(pre, post, e.a.lim)>>,
        <<"O02.old-packs-kept", \A p \in SetOf(pre.packs) : p \in SetOf(post.packs)>> >>

\* rm: e.a.drop is <<[r, ids]>>: saves (by commit id) to remove; e.a.whole: branches.
RmRel(e, pre, post) ==
  LET whole == SetOf(e.a.whole)
      dropOf(r) == UNION { SetOf(d.ids) : d \in { x \in SetOf(e.a.drop) : x.r = r } }
      touched == whole \cup { d.r : d \in SetOf(e.a.drop) }
      want(r) == IF r \in whole THEN <<>>
                 ELSE SelectSeq(Hist(pre, r), LAMBDA x : x.o \notin dropOf(r))
  IN << <<"R01.rc", e.rc = 0>>,
        <<"R01.other-refs", SameRefsExcept(pre, post, touched)>>,
        <<"R01.kept", \A r \in touched : CM(Hist(post, r)) = CM(want(r))>>,
        <<"R01.gone", \A r \in touched : want(r) = <<>> => Ref(post, r) = 0>>,
        <<"R01.linear", \A r \in touched : Linear(Hist(post, r))>> >>

RefuseRel(p, e, pre, post) ==
  << <<p \o ".refused", e.rc # 0>>,
     <<p \o ".unchanged", SameRefs(pre, post)>> >>

TagRel(e, pre, post) ==
  LET exists == Ref(pre, e.a.t) # 0
      ok == ~exists \/ e.a.force
  IN << <<"R03.rc", (e.rc = 0) <=> ok>>,
        <<"R03.other-refs", SameRefsExcept(pre, post, {e.a.t})>>,
        <<"R03.value", Ref(post, e.a.t) = IF ok THEN e.a.o ELSE Ref(pre, e.a.t)>> >>

TagDelRel(e, pre, post) ==
  LET exists == Ref(pre, e.a.t) # 0
  IN << <<"R03.delrc", (e.rc = 0) <=> (exists \/ e.a.force)>>,
        <<"R03.other-refs", SameRefsExcept(pre, post, {e.a.t})>>,
        <<"R03.deleted", Ref(post, e.a.t) = 0>> >>

TagListRel(e, pre, post) ==
  << <<"R03.list-rc", e.rc = 0>>,
     <<"R03.list", SetOf(e.a.names) = { r \in RefNames(pre) : r \in SetOf(e.a.tagrefs) }>> >>

\* gc with threshold e.a.thr.
GcRel(e, pre, post) ==
  LET live == Live(pre)
      have == Objs(pre)
      dead(p) == SetOf(p.o) \ live
      deadStruct(p) == \E o \in dead(p) : Kind(o) # "b"
      n(p) == Len(p.o)
      slack(p) == 2 + Cardinality(dead(p)) \div 20
      over(p) == deadStruct(p) \/ 100 * Cardinality(dead(p)) > e.a.thr * n(p)
      under(p) == ~deadStruct(p) /\ 100 * Cardinality(dead(p)) < e.a.thr * n(p)
      kept == { p \in SetOf(pre.packs) : ~over(p) }
      keptObjs == UNION { SetOf(p.o) : p \in kept }
      whole == live \subseteq have
      lostStruct == \E o \in live \ have : Kind(o) # "b"
      done == e.rc = 0
  IN << <<"G01.rc", (whole /\ ~e.a.killed) => done>>,
        \* gc need not look for blobs (only their names matter to it), but must
        \* notice a missing tree or commit.
        <<"G01.missing-rc", (lostStruct /\ ~e.a.ignore) => e.rc # 0>>,
        <<"G01.missing-unchanged", (~whole /\ ~e.a.ignore /\ e.rc # 0)
                                      => have \subseteq Objs(post)>>,
        \* What a missing tree or commit referred to can't be known any more.
        <<"G01.live-lost", ((IF e.rc # 0 /\ e.a.ignore THEN LivePresent(pre) ELSE live)
                             \cap have) \subseteq Objs(post)>>,
        <<"G01.refs", SameRefs(pre, post)>>,
        <<"G01.nothing-new", Objs(post) \subseteq have>>,
        <<"G02.dead-structure", done => \A o \in Objs(post) : Kind(o) = "b" \/ o \in live>>,
        <<"G02.over-threshold", done =>
             \A p \in SetOf(pre.packs) : over(p) =>
                Cardinality((dead(p) \cap Objs(post)) \ keptObjs) <= slack(p)>>,
        <<"G02.under-threshold", done =>
             \A p \in SetOf(pre.packs) : under(p) => p \in SetOf(post.packs)>> >>

\* Commands that only maintain auxiliary files, or only read.
NeutralRel(e, pre, post) ==
  << <<"O01.rc", e.rc = 0>>,
     <<"G01.refs", SameRefs(pre, post)>>,
     <<"O01.packs", SetOf(pre.packs) = SetOf(post.packs)>> >>

\* prune-older: e.a.keep is <<[r, ids]>>: the saves which must remain.
PruneRel(e, pre, post) ==
  LET keep(r) == UNION { SetOf(d.ids) : d \in { x \in SetOf(e.a.keep) : x.r = r } }
      touched == { d.r : d \in SetOf(e.a.keep) }
  IN << <<"R02.rc", e.rc = 0>>,
        <<"R02.other-refs", SameRefsExcept(pre, post, touched)>>,
        <<"R02.kept", \A r \in touched :
             CM(Hist(post, r)) = CM(SelectSeq(Hist(pre, r), LAMBDA x : x.o \in keep(r)))>> >>

\* A changed environment: packs copied in or objects destroyed by hand.
EnvRel(e, pre, post) == << <<"env.refs", SameRefs(pre, post)>> >>

Clauses(e, pre, post) ==
  CASE e.op = "save" -> Always(e.op, pre, post) \o StoreRel(e, pre, post)
    [] e.op = "rm" -> Always(e.op, pre, post) \o RmRel(e, pre, post)
    [] e.op = "rmbad" -> Always(e.op, pre, post) \o RefuseRel("R01", e, pre, post)
    [] e.op = "tag" -> Always(e.op, pre, post) \o TagRel(e, pre, post)
    [] e.op = "tagdel" -> Always(e.op, pre, post) \o TagDelRel(e, pre, post)
    [] e.op = "tagbad" -> Always(e.op, pre, post) \o RefuseRel("R03", e, pre, post)
    [] e.op = "taglist" -> Always(e.op, pre, post) \o TagListRel(e, pre, post)
    [] e.op = "gc" -> Always(e.op, pre, post) \o GcRel(e, pre, post)
    [] e.op = "prune" -> Always(e.op, pre, post) \o PruneRel(e, pre, post)
    [] e.op = "neutral" -> Always(e.op, pre, post) \o NeutralRel(e, pre, post)
    [] e.op = "observe" ->   \* a read-only command whose output was compared
         Always(e.op, pre, post) \o NeutralRel(e, pre, post)
           \o << <<e.a.clause, e.a.ok>> >>
    [] e.op = "env" -> EnvRel(e, pre, post)
    [] OTHER -> << <<"harness." \o e.op, FALSE>> >>

Pre(k) == IF k = 1 THEN T.init ELSE T.ev[k - 1].post

Init == /\ tid \in DOMAIN Traces
        /\ i = 1
        /\ bad = {}
        /\ TLCSet(tid, <<0, {}>>)

\* Failing clauses are collected, and the rest of the trace is still examined.
Next == /\ i <= Len(T.ev)
        /\ bad' = bad \cup { <<i, c>> : c \in Failing(Clauses(T.ev[i], Pre(i), T.ev[i].post)) }
        /\ i' = i + 1
        /\ tid' = tid
        /\ TLCSet(tid, <<i, bad'>>)

Spec == Init /\ [][Next]_vars


RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>>
            ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})

Report ==
  JsonSerialize(IOEnv.VERDICTS,
    [k \in DOMAIN Traces |->
       [pos |-> TLCGet(k)[1], len |-> Len(Traces[k].ev), bad |-> AsSeq(TLCGet(k)[2])]])
=============================================================================
