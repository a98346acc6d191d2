------------------------------- MODULE PruneMC -------------------------------
(* Exhaustively, for small histories with days of 2 ticks, months of 4 and years of 8: what
   Keeps promises, and that pruning in any order of runs is stable. *)
EXTENDS Prune, SequencesExt, TLC
CONSTANTS MaxT, MaxSaves, Wrong, Points

Never == MaxT + 100
Save(t) == [t |-> t, d |-> t \div 2, m |-> t \div 4, y |-> t \div 8]
VARIABLES saves, per, end, phase
vars == <<saves, per, end, phase>>
Starts == Points \cup {Never}
TypeSaves == UNION { { x \in [1..n -> 0..MaxT] : \A j \in 2..n : x[j] <= x[j - 1] } : n \in 0..MaxSaves }
Init == /\ \E x \in TypeSaves : saves = [j \in DOMAIN x |-> Save(x[j])]
        /\ per \in [all : Starts, d : Starts, m : Starts, y : Starts]
        /\ \E n \in {per.all, per.d, per.m, per.y} : n # Never
        /\ end \in {MaxT, MaxT - 3}
        /\ phase = 0
\* A broken design which compares the unit with the previous save's only, modulo the larger unit.
Mod(s) == [s EXCEPT !.m = @ % 2, !.d = @ % 4]
K == IF Wrong THEN Keeps([n \in DOMAIN saves |-> Mod(saves[n])], per, end) ELSE Keeps(saves, per, end)
Kept(S) == LET F[n \in 0..Len(saves)] == IF n = 0 THEN <<>> ELSE
                  IF n \in S THEN Append(F[n - 1], saves[n]) ELSE F[n - 1]
           IN F[Len(saves)]
Prune == phase = 0 /\ phase' = 1 /\ saves' = Kept(K) /\ UNCHANGED <<per, end>>
Next == Prune
Spec == Init /\ [][Next]_vars

\* Everything in the all-period stays.
AllKept == \A n \in DOMAIN saves : saves[n].t >= per.all \/ saves[n].t > end => n \in K
\* For each day within its period something at least as new as each save stays; so too months...
Unitkept == \A n \in DOMAIN saves :
  /\ saves[n].t >= per.d => \E j \in K : j <= n /\ saves[j].d = saves[n].d
  /\ saves[n].t >= per.m /\ per.m # Never => \E j \in K : j <= n /\ saves[j].m = saves[n].m
  /\ saves[n].t >= per.y => \E j \in K : j <= n /\ saves[j].y = saves[n].y
\* Nothing beyond all periods stays.
NothingElse == \A n \in K : saves[n].t > end \/ \E p \in {per.all, per.d, per.m, per.y} : saves[n].t >= p
\* Outside of the all-period, at most one save per day stays when only days count, etc.
OnlyNewest == \A n, j \in K : j < n /\ saves[n].t < per.all /\ saves[j].t <= end =>
   /\ (saves[j].t < per.all /\ saves[n].t >= per.d) => saves[j].d # saves[n].d
   /\ (saves[j].t < per.all /\ saves[j].t < per.d /\ saves[n].t >= per.m) => saves[j].m # saves[n].m
Stable == phase = 1 => K = DOMAIN saves
=============================================================================
