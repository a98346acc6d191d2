------------------------------ MODULE TreeEncMC ------------------------------
(* All pairs of entries with short names. *)
EXTENDS TreeEnc, TLC
CONSTANTS MaxLen, Wrong
Names == UNION { [1..n -> Tokens] : n \in 1..MaxLen }
Kinds == {"f", "c", "d", "l"}
VARIABLES a, b
Init == a \in Names \X Kinds /\ b = a
Next == b = a /\ b' \in Names \X Kinds /\ a' = a
Spec == Init /\ [][Next]_<<a, b>>
Mg(n, k) == IF Wrong /\ k # "c" THEN IF EndsBup(n) THEN n \o <<Bup, L>> ELSE n ELSE Mangle(n, k)
Same(x) == LET r == Demangle(Mg(x[1], x[2]), GitDir(x[2]))
           IN r.n = x[1] /\ r.k = (IF x[2] = "l" THEN "f" ELSE x[2])
RoundTrip == Same(a)
Distinct == a[1] # b[1] => Mg(a[1], a[2]) # Mg(b[1], b[2])
NotReserved == ~Reserved(Mg(a[1], a[2])) /\ ~PartName(Mg(a[1], a[2]))
=============================================================================
