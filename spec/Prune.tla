-------------------------------- MODULE Prune --------------------------------
(* Which saves prune-older keeps (R02).  A save is [t, d, m, y]: its time and the calendar day,
   month and year that time falls in; periods are [all, d, m, y]: the times at which they start
   (Never when not requested), and end the time they end at. *)
EXTENDS Integers, Sequences, FiniteSets

\* The finest period a save falls in.
Kind(s, per, end) ==
  CASE s.t > end \/ s.t >= per.all -> "all"
    [] s.t >= per.d -> "d"
    [] s.t >= per.m -> "m"
    [] s.t >= per.y -> "y"
    [] OTHER -> "none"
\* The calendar unit which it stands for there.
Unit(s, k) == CASE k = "d" -> s.d [] k = "m" -> s.m [] k = "y" -> s.y

\* saves is a sequence, newest first.
Keeps(saves, per, end) ==
  { n \in DOMAIN saves :
      LET k == Kind(saves[n], per, end)
      IN \/ k = "all"
         \/ /\ k \in {"d", "m", "y"}
            /\ ~ \E j \in 1..(n - 1) : /\ Kind(saves[j], per, end) = k
                                       /\ Unit(saves[j], k) = Unit(saves[n], k) }
=============================================================================
