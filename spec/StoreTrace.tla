------------------------------ MODULE StoreTrace ------------------------------
(* Checks the file operations of real commands, as recorded, against Store.tla: at every one
   of them, everything the references refer to is there (D01), and would be after a power
   failure (D02).

   T: kids (the objects' references to one another), packs (names and objects), init (names,
   which are firm, and refs), ev (op, a, b; f: new file's number; v: reference's new value). *)
EXTENDS TraceBase, Store
VARIABLES s, refs
PacksOf(t) == { [p |-> x.p, i |-> x.i, objs |-> SetOf(x.objs)] : x \in SetOf(t.packs) }
FnOf(q) == [n \in { x.n : x \in SetOf(q) } |-> (CHOOSE x \in SetOf(q) : x.n = n).v]

Init == /\ BaseInit
        /\ s = [dir |-> FnOf(T.init.names), sure |-> { x.n : x \in SetOf(T.init.names) },
                clean |-> { x.v : x \in SetOf(T.init.names) }]
        /\ refs = FnOf(T.init.refs)

After(e) == CASE e.op = "create" -> Create(s, e.a, e.f)
              [] e.op = "write" -> WriteFile(s, e.a)
              [] e.op = "sync" -> SyncFile(s, e.a)
              [] e.op = "syncdir" -> SyncDir(s, e.d)
              [] e.op = "rename" -> Rename(s, e.a, e.b)
              [] e.op = "link" -> Link(s, e.a, e.b)
              [] e.op = "unlink" -> Unlink(s, e.a)
              [] OTHER -> s
RefsAfter(e) == CASE e.op = "ref" -> (e.r :> e.v) @@ refs
                  [] e.op = "unref" -> Without(refs, e.r)
                  [] OTHER -> refs
Relevant(e) == e.op \in {"ref", "unlink", "end"} \/ (e.op \in {"create", "write", "rename"} /\ e.pack)

Clauses(e) ==
  IF ~Relevant(e) THEN <<>>
  ELSE LET s2 == After(e)
           r2 == RefsAfter(e)
           ps == PacksOf(T)
           used == Reach(T.kids, { r2[r] : r \in DOMAIN r2 })
       IN << <<"D01.step", used \subseteq Seen(s2, ps)>>,
             <<"D02.step", used \subseteq Kept(s2, ps)>>,
             <<"D01.claims", ~T.gc => Claimed(s2, ps) = {}>>,
             <<"harness.log", e.op = "end" => r2 = FnOf(T.final.refs)
                                              /\ { n \in DOMAIN s2.dir : n.d = T.packdir } = SetOf(T.final.names)>> >>

Next == /\ i <= Len(T.ev)
        /\ s' = After(T.ev[i])
        /\ refs' = RefsAfter(T.ev[i])
        /\ BaseNext(Clauses)
Spec == Init /\ [][Next]_<<base, s, refs>>
===============================================================================
