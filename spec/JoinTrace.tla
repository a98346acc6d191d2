------------------------------ MODULE JoinTrace ------------------------------
(* Checks what "split" stored and "join" gave back (H02) against Split.tla: which tree the chunks
   make (256 is the most a tree can have before it becomes part of another), ids, refs, content. *)
EXTENDS TraceBase, Split

Cs(s) == [k \in DOMAIN s |-> [n |-> s[k][1], level |-> s[k][2]]]
Stores(e) == e.mode \notin {"noop", "noop-b", "noop-t", "copy"}
Named(e) == e.mode \in {"n", "cn", "tn", "tcn"}
HasTree(e) == e.mode \in {"t", "c", "tc", "n", "cn", "tn", "tcn"}
HasCommit(e) == e.mode \in {"c", "tc", "n", "cn", "tn", "tcn"}
\* The tree stored for some chunks
Want(e) == LET b == Build(256, Cs(e.chunks)) IN
           IF ~Named(e) THEN b
           ELSE \* one entry: the data
                IF Len(b) = 0 THEN << [size |-> 0, kids |-> <<>>] >>
                ELSE IF Len(b) = 1 THEN b
                ELSE << [size |-> SizeOf(b), kids |-> b] >>

Clauses(e) ==
  CASE e.op = "split" ->
       << <<"H02.exit", e.rc = 0>>,
          <<"H02.output", e.rc = 0 => e.output>>,
          \* the same data and settings, the same id, wherever it came from and went
          <<"H02.same", \A k \in DOMAIN e.prior : e.prior[k] = e.id>>,
          <<"H02.content", e.content>>,
          <<"H02.tree", (e.rc = 0 /\ HasTree(e)) => e.tree = Want(e)>>,
          <<"H02.names", \A k \in DOMAIN e.names :
              LET x == e.names[k]
                  nodes == [j \in DOMAIN x.sizes |-> [size |-> x.sizes[j], kids |-> <<>>]]
              IN x.names = [j \in DOMAIN nodes |-> <<Offsets(nodes)[j], Width(SizeOf(nodes))>>]>>,
          <<"H02.dataname", (e.rc = 0 /\ Named(e)) =>
              e.dataname = (IF Len(Cs(e.chunks)) <= 1 THEN "data" ELSE "data.bup")>>,
          <<"H02.commit", (e.rc = 0 /\ HasCommit(e)) =>
              /\ e.commit.parents = (IF Named(e) THEN e.tip ELSE <<>>)
              /\ e.commit.dates \in { <<d, d>> : d \in e.dates[1]..e.dates[2] }
              /\ e.commit.tree = e.id>>,
          <<"H02.refs", e.refs = (IF e.rc = 0 /\ Named(e) THEN "moved" ELSE "same")>>,
          <<"H02.stored", ~Stores(e) => e.unchanged>> >>
    [] e.op = "join" ->
       << <<"H02.joinexit", (e.rc = 0) = ~e.missing>>,
          <<"H02.joined", e.content>>,
          <<"H02.readonly", e.unchanged>> >>
Spec == BaseInit /\ [][BaseNext(Clauses)]_base
=============================================================================
