----------------------------- MODULE ReaderTrace -----------------------------
(* Checks recorded reads of saved files against Reader.tla (V03).  What was read is given by its
   length, and the places of the file where those bytes are (at). *)
EXTENDS TraceBase, Reader

Good(w, r) == /\ r.ok = w.ok
              /\ r.ok => /\ r.len = w.len
                         /\ w.len > 0 => w.at \in SetOf(r.at)
                         /\ r.pos \in {-1, w.pos}
\* Reads that aren't part of a session start where they say.
Clauses(e) ==
  CASE e.op = "session" ->
         LET w == Session(e.size, 0, e.calls)
         IN << <<"V03.session", Len(e.res) = Len(w) /\ \A k \in DOMAIN w : Good(w[k], e.res[k])>>,
               <<"V03.size", e.said = e.size>> >>
    [] e.op = "fuse" ->
         << <<"V03.fuse", \A k \in DOMAIN e.calls :
                LET c == e.calls[k]  r == Seek(e.size, 0, c.at)
                IN r.ok => Good(Read(e.size, c.at, c.n), e.res[k])>>,
            <<"V03.size", e.said = e.size>> >>
    [] e.op = "whole" -> << <<"V03.whole", e.rc = 0 /\ e.len = e.size /\ e.same>>,
                            <<"V03.size", e.said \in {-1, e.size}>> >>

Spec == BaseInit /\ [][BaseNext(Clauses)]_base
=============================================================================
