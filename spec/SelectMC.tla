------------------------------- MODULE SelectMC -------------------------------
(* All small trees, exclusions and arguments. *)
EXTENDS Select
CONSTANTS Names, Wrong
Top == <<9>>
Univ == { <<9, a>> : a \in Names } \cup { <<9, a, b>> : a \in Names, b \in Names }
\* names 1 = "A", 2 = "AB"
Chars == <<(<<3>>), (<<3, 4>>)>>
Worlds == { { [p |-> p, d |-> Len(p) < 3 /\ \E q \in P : Parent(q) = p \/ p = Top, c |-> 1, s |-> Len(p)] : p \in P } :
            P \in { {Top} \cup X : X \in { Y \in SUBSET Univ : \A p \in Y : Len(p) = 3 => Parent(p) \in Y } } }
Rxs == { [lits |-> {l}, bol |-> b, eol |-> e] : l \in {<<3>>, <<2, 3, 4>>, <<3, 2>>, <<1, 2, 3>>, <<0, 4>>}, b \in BOOLEAN, e \in BOOLEAN }
VARIABLES W, ix, ex, rx, m, args, n
vars == <<W, ix, ex, rx, m, args, n>>
Walk(V, a, e, r) == IF Wrong THEN { x \in V : Begins(x.p, a) /\ (x.p = a \/ ~Hit(Chars, Top, x, e, r)) }
                    ELSE Walked(Chars, Top, V, a, e, r)
Index(i, as, e, r) == { x \in i : ~ \E a \in Reduced(as) : Begins(x.p, a) } \cup UNION { Walk(W, a, e, r) : a \in Reduced(as) }
Modes == { [how |-> "none"], [how |-> "strip"] } \cup { [how |-> "strippath", path |-> p] : p \in {Top} \cup Univ }
         \cup { [how |-> "graft", grafts |-> <<[old |-> o, new |-> w]>>] : o \in {Top} \cup Univ, w \in {<<>>, <<8>>, <<9, 1>>} }
Init == /\ W \in Worlds /\ ix = {} /\ n = 0
        /\ ex \in { {} } \cup { {p} : p \in Univ } /\ rx \in { {} } \cup { {r} : r \in Rxs }
        /\ (ex = {} \/ rx = {})
        /\ m = [how |-> "none"] /\ args = {}
DoIndex == /\ n = 0 /\ n' = 1
           /\ \E as \in { {a} : a \in PathsOf(W) } \cup { {Top} } :
                ix' = Index({}, as, ex, rx)
           /\ UNCHANGED <<W, ex, rx, m, args>>
DoSave == /\ n = 1 /\ n' = 2
          /\ m' \in Modes
          /\ args' \in { {a} : a \in PathsOf(W) }
          /\ UNCHANGED <<W, ix, ex, rx>>
Next == DoIndex \/ DoSave
Spec == Init /\ [][Next]_vars

\* Nothing is indexed below something excluded
NoneBelow == \A x \in ix : ~ \E y \in W : Inside(x.p, y.p) /\ Hit(Chars, Top, y, ex, rx) /\ y \notin ix
                                          /\ \E z \in ix : Inside(y.p, z.p)
Repeat == n = 1 => Index(ix, {Top}, ex, rx) = Index({}, {Top}, ex, rx)
Less == n = 1 => \A a \in PathsOf(W) : Index(ix, {a}, ex, rx) \subseteq Index(ix, {a}, {}, {})
\* Options only move things
S == Selected(ix, args)
Moved == n = 2 /\ ~Clash(m, args, S) =>
           /\ Cardinality(Others(m, args, S)) = Cardinality({ x \in S : ~x.d })
           /\ { o.c : o \in Others(m, args, S) } = { x.c : x \in { y \in S : ~y.d } }
           /\ \A o \in Others(m, args, S) : Parent(o.p) \in Dirs(m, args, S)
           /\ \A o \in Others(m, args, S) : o.p \notin Dirs(m, args, S)
Plain == n = 2 /\ m.how = "none" => { o.p : o \in Others(m, args, S) } = { x.p : x \in { y \in S : ~y.d } }
===============================================================================
