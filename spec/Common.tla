------------------------------- MODULE Common -------------------------------
(* Helper operators shared by the specifications and the trace specifications. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SetOf(s) == { s[i] : i \in DOMAIN s }

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* Every node reachable from roots in the graph kids (a function or a sequence
   of sequences/sets given as sequences). *)
RECURSIVE ReachFrom(_, _, _)
ReachFrom(kids, seen, front) ==
  IF front = {} THEN seen
  ELSE LET next == UNION { SetOf(kids[x]) : x \in front }
           seen2 == seen \cup front
       IN ReachFrom(kids, seen2, next \ seen2)

Reach(kids, roots) == ReachFrom(kids, {}, roots)

IsNoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]

(* The names of the clauses (given as a sequence of <<name, holds>>) that fail. *)
Failing(clauses) == { clauses[i][1] : i \in { j \in DOMAIN clauses : ~clauses[j][2] } }
=============================================================================
