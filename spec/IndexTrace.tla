----------------------------- MODULE IndexTrace -----------------------------
(* Checks recorded behaviours of the real index and save against Index.tla's design,
   extended to a tree of directories, and with the faults that a save may meet.

   A trace is [par, isdir, names, ev]: paths are numbered, par gives the directory of each
   (0 for the root, and for those whose directory never appears).  An index event has the
   tick b at which it looked, the tree found there (scan), and the status letters afterwards;
   a save event has the tree at the time of the save, the tree read back from the
   repository (snap), the letters, and the faults injected.
   In a scan or snapshot, k identifies type, content and metadata (0: there is nothing),
   s the stat data that the index compares, t the newest of its times. *)
EXTENDS Common, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, bad,
          idx,     \* the predicted index
          last,    \* what the last covering index run saw
          seen,    \* the different content that saves saw since
          had,     \* what each path was seen to be, since the index was cleared
          lets     \* the last status letters
vars == <<tid, i, bad, idx, last, seen, had, lets>>

T == Traces[tid]
P == DOMAIN T.par

RECURSIVE Up(_)
Up(p) == IF p = 0 THEN {} ELSE {p} \cup Up(T.par[p])     \* p and the directories above
Under(s) == { p \in P : s \in Up(p) }
Below(d) == Under(d) \ {d}
Related(F) == { p \in P : \E f \in F : f \in Up(p) \/ p \in Up(f) }

NoEntry == [in |-> FALSE, ex |-> FALSE, valid |-> FALSE, sha |-> FALSE, s |-> 0, cl |-> FALSE,
            fz |-> FALSE,   \* the flags are unknown (after faults)
            am |-> FALSE]   \* whether it was ever saved is unknown
Blank == [NoEntry EXCEPT !.in = TRUE, !.ex = TRUE, !.cl = TRUE]
Unknown == [k |-> -1, c |-> -1, ty |-> "?", t |-> 0, s |-> -1, g |-> 0]

-----------------------------------------------------------------------------
\* The index after an index run.
IndexStep(e) ==
  LET S == Under(e.sub)
      F == Related(SetOf(e.faults))
      tmax == e.b - 1
      scan == e.scan
      Own(p) ==    \* the entry, whatever happens below it
        LET x == idx[p]  f == scan[p]
        IN IF f.k = 0
           THEN IF x.in THEN [x EXCEPT !.ex = FALSE, !.valid = FALSE] ELSE x
           ELSE IF ~x.in \/ ~x.ex \/ x.cl \/ x.s # f.s \/ (~x.sha /\ ~x.fz)
           THEN [x EXCEPT !.in = TRUE, !.ex = TRUE, !.valid = FALSE, !.s = f.s,
                          !.cl = (f.t > tmax), !.fz = FALSE, !.am = x.am \/ x.fz]
           ELSE x
      changed == { p \in S : Own(p) # idx[p] \/ (~Own(p).valid /\ Own(p).ex) }
      New(p) ==
        LET x == IF p \in S THEN Own(p) ELSE idx[p]
\* what's above may be replaced by an empty entry
            y == IF p \notin S /\ p \in Up(e.sub)
                 THEN IF ~x.in THEN Blank
                      ELSE IF changed # {} THEN [Blank EXCEPT !.am = TRUE] ELSE x
                 ELSE x
            z == IF T.isdir[p] /\ Below(p) \cap changed # {} THEN [y EXCEPT !.valid = FALSE, !.fz = FALSE, !.am = y.am \/ y.fz] ELSE y
        IN IF p \in F THEN [z EXCEPT !.fz = TRUE] ELSE z
  IN [p \in P |-> New(p)]

LastStep(e) ==
  LET F == Related(SetOf(e.faults))
  IN [p \in P |-> IF p \in Under(e.sub)
                  THEN IF p \in F THEN Unknown ELSE e.scan[p]
                  ELSE last[p]]

SeenStep(e) ==
  [p \in P |-> IF e.op = "index" /\ p \in Under(e.sub) THEN {}
               ELSE IF e.op = "save" /\ last[p].k # e.scan[p].k
               THEN seen[p] \cup {last[p].c, e.scan[p].c}
               ELSE seen[p]]

\* Status letters: A and M are told apart for what exists and isn't saved as it is.
LetterOk(x, l) ==
  \/ x.fz
  \/ ~x.in /\ l = "-"
  \/ x.in /\ ~x.ex /\ l = "D"
  \/ x.in /\ x.ex /\ x.valid /\ l = " "
  \/ x.in /\ x.ex /\ ~x.valid /\ (l = (IF x.sha THEN "M" ELSE "A") \/ (x.am /\ l \in {"A", "M"}))

IndexClauses(e) ==
  LET n == IndexStep(e)
  IN << <<"S02.index-rc", e.rc = 0>>,
        <<"S02.status", \A p \in P : LetterOk(n[p], e["let"][p])>> >>

-----------------------------------------------------------------------------
\* The selected paths that didn't change, for which nothing can fail.
Faulted(e) == SetOf(e.faults)
Known(S) == { p \in S : last[p].k # -1 }
Steady(e, p) == last[p].k = e.scan[p].k /\ p \notin Faulted(e) /\ seen[p] = {}
\* Those that a save (which has to look at them) can't save.
Fails(e, p) == /\ idx[p].in /\ idx[p].ex /\ last[p].k > 0
               /\ \/ p \in SetOf(e.definite)
                  \/ e.scan[p].k = 0
                  \/ e.scan[p].ty # last[p].ty

SaveOk(e, p) ==
  LET a == e.snap[p]  was == last[p]  now == e.scan[p]
  IN IF Steady(e, p) THEN a.k = was.k
     ELSE \/ a.k = 0
          \/ was.k > 0 /\ idx[p].valid /\ a.k = was.k
          \/ was.k > 0 /\ now.ty = was.ty /\ a.k = now.k
          \* saved since it changed (perhaps with older metadata)
          \/ was.k > 0 /\ idx[p].valid /\ a.c \in seen[p]
          \* a directory that was there but isn't readable
          \/ was.k > 0 /\ a.nm /\ a.ty = "d"

Hardlinks(e, S) ==
  LET Q == { p \in S : ~T.isdir[p] /\ e.snap[p].k > 0 /\ Steady(e, p) /\ last[p].s = e.scan[p].s }
      tgt(p) == e.snap[p].h
      grp(p) == e.scan[p].g
  IN \A p \in Q : /\ (grp(p) = 0) = (tgt(p) = 0)
                  /\ \A q \in Q : grp(p) # 0 /\ grp(q) # 0
                       => (grp(p) = grp(q)) = (tgt(p) = tgt(q))

SaveStep(e) ==
  LET S == Under(e.sub)
      sel == idx[e.sub].in /\ idx[e.sub].ex
      fails == { p \in S : Fails(e, p) }
      saved(p) == [idx[p] EXCEPT !.valid = TRUE, !.sha = TRUE, !.fz = FALSE, !.am = FALSE]
  IN IF ~sel THEN idx
     ELSE [p \in P |->
            IF p \notin S \/ ~idx[p].in \/ ~idx[p].ex THEN idx[p]
            ELSE IF \E q \in Up(p) : q \in fails /\ idx[q].valid THEN [idx[p] EXCEPT !.fz = TRUE]
            ELSE IF p \in fails /\ ~T.isdir[p] THEN idx[p]
            ELSE IF \E q \in fails : p \in Up(q)
            THEN [idx[p] EXCEPT !.fz = TRUE]
            ELSE saved(p)]

\* What a save has to do when nothing fails.
SaveClauses(e) ==
  LET S == Known(Under(e.sub))
      sel == idx[e.sub].in /\ idx[e.sub].ex
      calm == (\A p \in Under(e.sub) : Steady(e, p)) /\ S = Under(e.sub)
  IN IF ~sel THEN << >>
     ELSE << <<"S02.exact", calm => \A p \in S : SaveOk(e, p)>>,
             <<"S02.only-selected", \A p \in P \ Under(e.sub) :
                 e.snap[p].k = 0 \/ p \in Up(e.sub)>>,
             <<"S02.rc", calm => e.rc = 0>>,
             <<"S02.hardlinks", calm => Hardlinks(e, S)>>,
             <<"S02.raced", \A p \in S : SaveOk(e, p)>>,
             <<"S02.status-saved", calm => \A p \in P : LetterOk(SaveStep(e)[p], e["let"][p])>> >>

-----------------------------------------------------------------------------
\* With faults, the index's state is taken from the status letters before the save, and what's
\* promised is stated in terms of them.
InIdx(p) == lets[p] \in {"A", "M", " "}
Visited(e, p) == InIdx(p) /\ \A q \in Up(p) \cap Under(e.sub) : lets[q] # " "

FaultyIndexClauses(e) ==
  LET F == Related(SetOf(e.faults))
      S == Under(e.sub)
  IN << <<"S04.index-rc", SetOf(e.definite) \cap { p \in S : e.scan[p].k # 0 } # {} => e.rc # 0>>,
        <<"S04.index-spurious", e.rc # 0 => e.faults # <<>> >>,
        <<"S04.indexed", \A p \in S \ F : (e.scan[p].k # 0) <=> (e["let"][p] \in {"A", "M", " "})>>,
        <<"S04.parents", \A p \in S \ F : e["let"][p] \in {"A", "M"} =>
             \A q \in Up(p) : e["let"][q] # " " >> >>

FaultySaveClauses(e) ==
  LET S == Known(Under(e.sub))
      calm == (\A p \in Under(e.sub) : Steady(e, p)) /\ S = Under(e.sub)
      \* (What was saved to another repository before may keep its own status.)
      Open(p) == \A q \in Up(p) \cap Under(e.sub) :
                   e["let"][q] = " " => q = p /\ lets[p] = " " /\ ~T.isdir[p]
      ok == { p \in S : Visited(e, p) /\ Steady(e, p) /\ last[p].k > 0 }
      fails == { p \in S : Visited(e, p) /\ last[p].k > 0
                          /\ (p \in SetOf(e.definite) \/ e.scan[p].k = 0
                              \/ (~T.isdir[p] /\ e.scan[p].ty # last[p].ty)) }
      lost == { p \in S : InIdx(p) /\ last[p].k > 0 /\ (e.snap[p].k = 0 \/ e.snap[p].nm) }
  IN IF ~InIdx(e.sub) THEN << >>
     ELSE << <<"S04.unaffected", \A p \in ok : e.snap[p].k = last[p].k>>,
             <<"S04.unaffected-status", \A p \in ok : ~T.isdir[p] => e["let"][p] = " ">>,
             <<"S04.content", \A p \in S : \/ e.snap[p].k \in {0, e.scan[p].k} \cup had[p].k
                                           \/ e.snap[p].nm /\ e.snap[p].ty = "d"
                                           \/ e.snap[p].c \in had[p].c /\ seen[p] # {}>>,
             <<"S04.failed", \A p \in fails : e.snap[p].k = 0 \/ e.snap[p].nm>>,
             <<"S04.reported", fails \cup lost # {} => e.rc # 0>>,
             <<"S04.retried", \A p \in fails \cup lost : Open(p)>>,
             <<"S04.spurious", e.rc # 0 =>
                 \/ \E p \in Under(e.sub) : InIdx(p) /\ (p \notin S \/ ~Steady(e, p))
                 \/ Up(e.sub) \cap Faulted(e) # {}>>,
             <<"S04.recovers", calm => \A p \in S : e.snap[p].k = last[p].k>>,
             <<"S04.outside", \A p \in P \ Under(e.sub) :
                 e.snap[p].k = 0 \/ p \in Up(e.sub)>> >>

HadStep(e) ==
  [p \in P |-> [k |-> had[p].k \cup {e.scan[p].k}, c |-> had[p].c \cup {e.scan[p].c}]]

-----------------------------------------------------------------------------
Clauses(e) ==
  CASE e.op = "index" -> IF T.faulty THEN FaultyIndexClauses(e) ELSE IndexClauses(e)
    [] e.op = "save" -> IF T.faulty THEN FaultySaveClauses(e) ELSE SaveClauses(e)
    [] e.op = "clear" -> << >>
    [] OTHER -> << <<"harness." \o e.op, FALSE>> >>

\* What a failing clause is about.
Detail(e, c) ==
  CASE c = "S02.status" -> ToString({ <<T.names[p], IndexStep(e)[p], e["let"][p]>> :
                             p \in { q \in P : ~LetterOk(IndexStep(e)[q], e["let"][q]) } })
    [] c = "S02.status-saved" -> ToString({ <<T.names[p], SaveStep(e)[p], e["let"][p]>> :
                             p \in { q \in P : ~LetterOk(SaveStep(e)[q], e["let"][q]) } })
    [] c \in {"S02.exact", "S02.raced"} ->
         ToString({ <<T.names[p], idx[p], last[p], e.scan[p], e.snap[p], seen[p]>> :
                    p \in { q \in Known(Under(e.sub)) : ~SaveOk(e, q) } })
    [] c \in {"S04.unaffected", "S04.recovers"} ->
         ToString({ <<T.names[p], lets[p], last[p], e.scan[p], e.snap[p]>> :
                    p \in { q \in Known(Under(e.sub)) : e.snap[q].k # last[q].k } })
    [] OTHER -> ""

Init == /\ tid \in DOMAIN Traces
        /\ i = 1
        /\ bad = {}
        /\ idx = [p \in P |-> NoEntry]
        /\ last = [p \in P |-> Unknown]
        /\ seen = [p \in P |-> {}]
        /\ had = [p \in P |-> [k |-> {}, c |-> {}]]
        /\ lets = [p \in P |-> "-"]
        /\ TLCSet(tid, <<0, {}>>)

Next == /\ i <= Len(T.ev)
        /\ LET e == T.ev[i]
           IN /\ bad' = bad \cup { <<i, c, Detail(e, c)>> : c \in Failing(Clauses(e)) }
              /\ idx' = CASE e.op = "index" -> IndexStep(e)
                          [] e.op = "save" -> SaveStep(e)
                          [] OTHER -> [p \in P |-> NoEntry]
              /\ last' = CASE e.op = "index" -> LastStep(e)
                           [] e.op = "clear" -> [p \in P |-> Unknown]
                           [] OTHER -> last
              /\ seen' = CASE e.op \in {"index", "save"} -> SeenStep(e)
                           [] OTHER -> [p \in P |-> {}]
              /\ had' = CASE e.op \in {"index", "save"} -> HadStep(e)
                          [] OTHER -> [p \in P |-> [k |-> {}, c |-> {}]]
              /\ lets' = CASE e.op \in {"index", "save"} -> e["let"]
                           [] OTHER -> [p \in P |-> "-"]
        /\ i' = i + 1
        /\ tid' = tid
        /\ TLCSet(tid, <<i, bad'>>)

Spec == Init /\ [][Next]_vars

RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>>
            ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})

Report ==
  JsonSerialize(IOEnv.VERDICTS,
    [k \in DOMAIN Traces |->
       [pos |-> TLCGet(k)[1], len |-> Len(Traces[k].ev), bad |-> AsSeq(TLCGet(k)[2])]])
=============================================================================
