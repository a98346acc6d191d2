-------------------------------- MODULE Names --------------------------------
(* The names of a branch's saves (V02): the local date of each, with a suffix where several have
   the same one, so that the suffixes follow their order. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* A time is <<day, second>>, since 1970-01-01.
Norm(t) == <<t[1] + (t[2] \div 86400), t[2] % 86400>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Shift(t, secs) == Norm(<<t[1], t[2] + secs>>)

\* Proleptic Gregorian calendar
Civil(day) ==
  LET z == day + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - ((153 * mp + 2) \div 5) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, d>>
YearDay(y, m, d) ==  \* the inverse
  LET y2 == IF m <= 2 THEN y - 1 ELSE y
      era == y2 \div 400
      yoe == y2 % 400
      doy == ((153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5) + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468

\* A time zone: offset, and when there's summer time, its offset and the <<month, day>> at which
\* it starts and ends at two o'clock (sum = off if there is none).
Local(tz, t) ==
  LET y == Civil(Shift(t, tz.off)[1])[1]
      start == Shift(<<YearDay(y, tz.from[1], tz.from[2]), 7200>>, -tz.off)
      end == Shift(<<YearDay(y, tz.to[1], tz.to[2]), 7200>>, -tz.sum)
      in == IF Before(start, end) THEN ~Before(t, start) /\ Before(t, end)
            ELSE ~(~Before(t, end) /\ Before(t, start))
  IN Shift(t, IF in THEN tz.sum ELSE tz.off)

RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad("0" \o s, n)
Two(n) == Pad(ToString(n), 2)
DateName(tz, t) ==
  LET l == Local(tz, t)  c == Civil(l[1])
  IN Pad(ToString(c[1]), 4) \o "-" \o Two(c[2]) \o "-" \o Two(c[3]) \o "-"
     \o Two(l[2] \div 3600) \o Two((l[2] \div 60) % 60) \o Two(l[2] % 60)

\* base is a sequence of dates, newest save first.
Same(base, n) == { m \in DOMAIN base : base[m] = base[n] }
Suffix(base, n) ==
  LET S == Same(base, n)
      older == Cardinality({ m \in S : m > n })
  IN IF Cardinality(S) = 1 THEN ""
     ELSE "-" \o Pad(ToString(older), Len(ToString(Cardinality(S) - 1)))
Names(base) == [n \in DOMAIN base |-> base[n] \o Suffix(base, n)]
=============================================================================
