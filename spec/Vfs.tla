--------------------------------- MODULE Vfs ---------------------------------
(* How a path is resolved in a tree of directories, files and symbolic links, as POSIX has it
   (V01).  N is a sequence of nodes [k, e, abs, tgt]: k is "d", "f" or "l"; e the entries of a
   directory, a sequence of [n, id]; a link has a target, absolute or not, given by its
   components (a trailing slash is a final component ".").  Node 1 is the root. *)
EXTENDS Integers, Sequences, FiniteSets

MaxHops == 40

Child(N, n, name) ==
  LET X == { x \in DOMAIN N[n].e : N[n].e[x].n = name }
  IN IF X = {} THEN 0 ELSE N[n].e[CHOOSE x \in X : TRUE].id

\* past is the sequence of the nodes from the root to where we are.
RECURSIVE Walk(_, _, _, _, _)
Walk(N, past, todo, follow, hops) ==
  LET cur == past[Len(past)]
  IN IF todo = <<>> THEN [st |-> "ok", at |-> past]
     ELSE IF N[cur].k # "d" THEN [st |-> "notdir", at |-> past]
     ELSE LET s == Head(todo)  rest == Tail(todo)
          IN IF s = "." THEN Walk(N, past, rest, follow, hops)
             ELSE IF s = ".."
             THEN Walk(N, IF Len(past) > 1 THEN SubSeq(past, 1, Len(past) - 1) ELSE past, rest, follow, hops)
             ELSE LET c == Child(N, cur, s)
                  IN IF c = 0 THEN [st |-> "none", at |-> past]
                     ELSE IF N[c].k = "l" /\ (rest # <<>> \/ follow)
                     THEN IF hops >= MaxHops THEN [st |-> "loop", at |-> past]
                          ELSE Walk(N, IF N[c].abs THEN <<1>> ELSE past, N[c].tgt \o rest, follow, hops + 1)
                     ELSE Walk(N, Append(past, c), rest, follow, hops)

\* From the directory that start is (a sequence of nodes).
Resolve(N, start, abs, comps, follow) ==
  Walk(N, IF abs THEN <<1>> ELSE start, comps, follow, 0)
=============================================================================
