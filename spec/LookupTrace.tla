---------------------------- MODULE LookupTrace ----------------------------
(* Checks recorded histories of directories of indexes (O01).  T.content: the queried objects in
   each pack; an event has the directory before and after (the packs, the midx files with the
   names they have, whether they are what they should be for these, and the filter), and what was
   asked and answered. *)
EXTENDS TraceBase

Has(P) == UNION { SetOf(T.content[p]) : p \in SetOf(P) }
\* A midx which is readable, right, and of which no index is missing
Good(m, d) == m.valid /\ m.right /\ SetOf(m.names) \subseteq SetOf(d.packs)
ByName(d, n) == CHOOSE m \in SetOf(d.midx) : m.f = n
Names(d) == { m.f : m \in SetOf(d.midx) }
New(e) == { m \in SetOf(e.post.midx) : m \notin SetOf(e.pre.midx) }
Same(e) == e.post = e.pre
IdxSame(e) == e.post.packs = e.pre.packs /\ e.idxsame
BloomOk(b, d) == b.valid /\ b.intact

Look(e) ==
  << <<"O01.answers", ~e.broken>>,
     <<"O01.found", \A a \in SetOf(e.ans) : a.q \in Has(e.kept) => a.found>>,
     <<"O01.absent", \A a \in SetOf(e.ans) : a.found => a.q \in Has(e.known)>>,
     <<"O01.source", \A a \in SetOf(e.ans) : (a.found /\ e.full) =>
          a.src \in SetOf(e.known) /\ a.q \in SetOf(T.content[a.src])>>,
     <<"O01.offset", \A a \in SetOf(e.ans) : (a.found /\ e.full) => a.ofs>>,
     <<"O01.look-changes", IdxSame(e) /\ e.post.bloom = e.pre.bloom>>,
     \* Loading may remove midxes, but only incomplete or redundant ones
     \* (a long-lived one may still have a midx open which somebody spoiled)
     <<"O01.look-removes", e.fresh => \A m \in SetOf(e.pre.midx) : m \in SetOf(e.post.midx)
          \/ ~ (SetOf(m.names) \subseteq SetOf(e.pre.packs))
          \/ SetOf(m.names) \subseteq UNION { SetOf(x.names) : x \in { x \in SetOf(e.post.midx) : x.valid } }>> >>

Midx(e) ==
  << <<"O01.midx-rc", e.rc = 0>>,
     <<"O01.midx-idxs", IdxSame(e) /\ e.post.bloom = e.pre.bloom>>,
     <<"O01.midx-right", \A m \in New(e) : Good(m, e.post)>>,
     <<"O01.midx-loses", \A m \in SetOf(e.pre.midx) :
          (Good(m, e.pre) /\ m.f \notin { x.f : x \in New(e) }) =>
             SetOf(m.names) \subseteq UNION { SetOf(x.names) : x \in { x \in SetOf(e.post.midx) : Good(x, e.post) } }>>,
     <<"O01.midx-force", (e.how = "f" /\ Len(e.pre.packs) >= 2) =>
          \E m \in SetOf(e.post.midx) : Good(m, e.post) /\ SetOf(m.names) = SetOf(e.pre.packs)>>,
     <<"O01.midx-files", e.how = "files" => \E m \in SetOf(e.post.midx) :
          m.f = e.out /\ Good(m, e.post) /\ SetOf(m.names) = SetOf(e.want)>>,
     <<"O01.midx-stale", e.how \in {"a", "af", "amax"} => \A m \in SetOf(e.post.midx) :
          m.valid => SetOf(m.names) \subseteq SetOf(e.post.packs)>> >>

Bloom(e) ==
  << <<"O01.bloom-rc", e.rc = 0>>,
     <<"O01.bloom-idxs", IdxSame(e) /\ e.post.midx = e.pre.midx>>,
     <<"O01.bloom-covers", e.pre.packs # <<>> =>
          /\ e.post.bloom.valid
          /\ SetOf(e.pre.packs) \subseteq SetOf(e.post.bloom.names)>>,
     <<"O01.bloom-force", (e.how = "f" /\ e.pre.packs # <<>>) =>
          SetOf(e.pre.packs) = SetOf(e.post.bloom.names)>>,
     <<"O01.bloom-entries", (e.pre.packs # <<>> /\ e.post.bloom # e.pre.bloom) =>
          e.post.bloom.entries = e.post.bloom.total>>,
     <<"O01.bloom-k", (e.how \in {"k4", "k5"} /\ e.pre.packs # <<>> /\ e.post.bloom # e.pre.bloom) =>
          e.post.bloom.k = (IF e.how = "k4" THEN 4 ELSE 5)>> >>

CheckM(e) ==
  << <<"O01.check-changes", Same(e)>>,
     \* Ones that readers ignore are accepted.
     <<"O01.check-midx", (e.rc = 0) = \A f \in SetOf(e.asked) :
          LET m == ByName(e.pre, f)
          IN m.valid /\ SetOf(m.names) \subseteq SetOf(e.pre.packs) => m.right>> >>
\* For an index: whether the filter has it.
CheckB(e) ==
  << <<"O01.check-changes", Same(e)>>,
     <<"O01.check-bloom", (e.rc = 0) =
          (e.pre.bloom.valid /\ e.target /\ SetOf(e.want) \subseteq SetOf(e.pre.bloom.names)
           /\ ~e.pre.bloom.ruined)>> >>
Clauses(e) == CASE e.op = "look" -> Look(e)
                [] e.op = "midx" -> Midx(e)
                [] e.op = "bloom" -> Bloom(e)
                [] e.op = "checkm" -> CheckM(e)
                [] e.op = "checkb" -> CheckB(e)
                [] OTHER -> <<>>
Spec == BaseInit /\ [][BaseNext(Clauses)]_base
=============================================================================
