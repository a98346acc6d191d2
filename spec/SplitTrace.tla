------------------------------ MODULE SplitTrace ------------------------------
(* Checks what splitters did (H01) against Split.tla.  "chunks": a whole stream and what it gave.
   "probe": of a long stream, whether chunks ended at some places, given the window there. *)
EXTENDS TraceBase, Split

P(e) == [w |-> 64, off |-> 31, bits |-> e.bits, half |-> 16, max |-> Pow2(e.bits + 2), fanbits |-> e.fanbits]
Cs(s) == [k \in DOMAIN s |-> [n |-> s[k][1], level |-> s[k][2]]]

Clauses(e) ==
  CASE e.op = "chunks" ->
       << <<"H01.chunks", e.ok /\ Cs(e.got) = Expected(P(e), e.files, e.keep)>>,
          <<"H01.content", e.same>> >>
    [] e.op = "again" ->   \* the same again, from a boundary, or arriving otherwise
       << <<"H01.again", e.ok /\ e.got = SubSeq(e.want, e.from, Len(e.want))>> >>
    [] e.op = "long" ->
       LET p == P(e)
           Win(x) == <<S1(p, x.win), S2(p, x.win)>>
           AtHit(x) == Hit(p, Win(x)[1], Win(x)[2])
       IN << <<"H01.content", e.ok /\ e.same /\ e.total = e.want>>,
             <<"H01.limit", e.most <= p.max>>,
             <<"H01.inside", \A k \in DOMAIN e.inside : ~AtHit(e.inside[k])>>,
             <<"H01.end", \A k \in DOMAIN e.ends :
                 LET x == e.ends[k] IN
                 IF AtHit(x) THEN x.level = Level(p, Win(x)[1], Win(x)[2])
                 ELSE x.level = 0 /\ (x.n = p.max \/ x.last)>> >>
    [] e.op = "records" ->
       LET want == RecordSplits(P(e), e.recs)
       IN << <<"H01.records", e.ok /\ Len(e.got) = Len(want) /\ \A k \in DOMAIN want :
                CASE want[k].v = "either" -> TRUE
                  [] want[k].v = "no" -> e.got[k] = <<0, 0>>
                  [] want[k].v = "size" -> e.got[k] = <<1, 0>>
                  [] want[k].v = "hit" -> e.got[k] = <<1, want[k].bits>> >> >>
Spec == BaseInit /\ [][BaseNext(Clauses)]_base
=============================================================================
