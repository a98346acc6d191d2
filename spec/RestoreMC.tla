------------------------------ MODULE RestoreMC ------------------------------
(* All small snapshots, outputs and argument lists: nothing outside of what's selected changes;
   what is selected is there; exclusions only remove. *)
EXTENDS Restore, TLC
CONSTANTS Names, MaxArgs, Wrong
\* Trees of at most two levels
Nodes == {"d", "f"}
Paths == { <<a>> : a \in Names } \cup { <<a, b>> : a \in Names, b \in Names }
Trees == { T \in SUBSET { [p |-> p, n |-> [k |-> k]] : p \in Paths, k \in Nodes } :
             /\ \A x, y \in T : x.p = y.p => x = y
             /\ \A x \in T : Len(x.p) = 2 => /\ \E y \in T : y.p = <<x.p[1]>> /\ y.n.k = "d"
                                             /\ x.n.k = "f" }
Root == [p |-> <<>>, n |-> [k |-> "d"]]
VARIABLES S, out, args, ex
vars == <<S, out, args, ex>>
Init == /\ S \in Trees /\ args = <<>>
        /\ out \in { { [p |-> x.p, n |-> [k |-> x.n.k]] : x \in T } : T \in Trees }
        /\ ex \in {{}} \cup { {[k |-> k, n |-> n]} : k \in {"file", "dir", "inside", "top"}, n \in Names }
AddArg == /\ Len(args) < MaxArgs
          /\ \E x \in S \cup {Root}, f \in {"item", "inside"} :
               /\ f = "inside" => x.n.k = "d"
               /\ f = "item" => x # Root
               /\ args' = Append(args, [p |-> x.p, form |-> f, bad |-> FALSE])
          /\ UNCHANGED <<S, out, ex>>
Next == AddArg
Spec == Init /\ [][Next]_vars
\* A broken design excludes paths but not what's below them.
Shallow(a) == { x \in Selected(S, a) : ~ \E r \in ex : Hit(r, x.p, x.n.k = "d") }
Sel(a) == IF Wrong THEN Shallow(a) ELSE Chosen(S, a, ex)
R == IF Wrong /\ Len(args) = 1 /\ ~Refused(out, Sel(args[1])) THEN [ok |-> TRUE, t |-> Put(out, Sel(args[1]))]
     ELSE RestoreAll(S, out, args, ex)
PathsOf(T) == { x.p : x \in T }
Rest == UNION { PathsOf(Sel(args[k])) : k \in DOMAIN args }
Kept == R.ok => /\ \A y \in out : y.p \notin Rest => y \in R.t
                /\ PathsOf(R.t) = PathsOf(out) \cup Rest
LastWins == R.ok /\ args # <<>> => Chosen(S, args[Len(args)], ex) \subseteq R.t
IsTree == R.ok => \A x \in R.t : Len(x.p) > 1 => \E y \in R.t : y.p = SubSeq(x.p, 1, Len(x.p) - 1) /\ y.n.k = "d"
NoExcluded == \A k \in DOMAIN args : \A x \in Sel(args[k]) : \A r \in ex :
   ~Hit(r, x.p, x.n.k = "d")
=============================================================================
