------------------------------- MODULE NamesMC -------------------------------
(* Exhaustively for short histories (and long ones of few dates): names are distinct, name the
   dates, sort as their saves do when of the same date, and don't depend on later saves of other
   dates; the calendar and the time zones are consistent. *)
EXTENDS Names
CONSTANTS MaxSaves, Dates, Days, Wrong
VARIABLES base, day, tz
vars == <<base, day, tz>>
Zones == { [off |-> 0, sum |-> 0, from |-> <<3, 1>>, to |-> <<10, 27>>],
           [off |-> -18000, sum |-> -14400, from |-> <<3, 14>>, to |-> <<11, 7>>],
           [off |-> 20700, sum |-> 20700, from |-> <<3, 1>>, to |-> <<10, 27>>],
           [off |-> 36000, sum |-> 39600, from |-> <<10, 1>>, to |-> <<4, 2>>] }
Init == base = <<>> /\ day = 0 /\ tz \in Zones
More == /\ Len(base) < MaxSaves /\ day = 0 /\ tz.off = 0
        /\ \E d \in Dates : base' = <<d>> \o base
        /\ UNCHANGED <<day, tz>>
NextDay == /\ base = <<>> /\ day < Days /\ day' = day + 1 /\ UNCHANGED <<base, tz>>
Next == More \/ NextDay
Spec == Init /\ [][Next]_vars
N == IF Wrong THEN [n \in DOMAIN base |-> base[n] \o (IF Cardinality(Same(base, n)) = 1 THEN "" ELSE
                     "-" \o ToString(Cardinality({ m \in Same(base, n) : m > n })))] ELSE Names(base)
Distinct == \A m, n \in DOMAIN base : m # n => N[m] # N[n]
\* equal lengths make the names sort as the numbers do
Sorted == \A m, n \in DOMAIN base : base[m] = base[n] => Len(N[m]) = Len(N[n])
Alone == \A n \in DOMAIN base : (N[n] = base[n]) = (Same(base, n) = {n})
Stable == \A d \in Dates : d \notin { base[n] : n \in DOMAIN base } /\ base # <<>> =>
             \A n \in DOMAIN base : Names(<<d>> \o base)[n + 1] = Names(base)[n]
Calendar == base = <<>> => LET c == Civil(day)  e == Civil(day + 1)
            IN /\ YearDay(c[1], c[2], c[3]) = day
               /\ e = <<c[1], c[2], c[3] + 1>> \/ e = <<c[1], c[2] + 1, 1>> \/ e = <<c[1] + 1, 1, 1>>
Zone == base = <<>> => \A h \in 0..23 : Local(tz, <<day, h * 3600>>) \in {Shift(<<day, h * 3600>>, tz.off), Shift(<<day, h * 3600>>, tz.sum)}
=============================================================================
