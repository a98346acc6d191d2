------------------------------ MODULE LookupMC ------------------------------
EXTENDS Lookup
\* p1 and p2 are disjoint and of equal size, p3 overlaps them, p4 is a part of p1
MCContent == [p \in Packs |-> CASE p = "p1" -> {1, 2} [] p = "p2" -> {3, 4}
                                [] p = "p3" -> {2, 3} [] p = "p4" -> {1} [] OTHER -> {4}]
FewMidx == Cardinality(midx) <= 2
=============================================================================
