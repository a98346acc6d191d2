-------------------------------- MODULE Select --------------------------------
(* What's indexed and saved, and where it appears (S03).  Paths are sequences of names (numbers);
   an item has a path p, whether it's a directory d, its content c and size s.
   A regular expression is a set of alternatives lits, each a sequence of characters (0: any
   character, 1: the top directory, 2: "/"), perhaps anchored (bol, eol). *)
EXTENDS Common

Begins(p, q) == Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q        \* p is q, or inside it
Inside(p, q) == Begins(p, q) /\ p # q
Tail2(p, n) == SubSeq(p, n + 1, Len(p))
Parent(p) == SubSeq(p, 1, Len(p) - 1)
PathsOf(W) == { x.p : x \in W }

\* ---- characters: those of the path below the top; directories end in "/"
RECURSIVE Flat(_, _)
Flat(chars, p) == IF p = <<>> THEN <<>> ELSE <<2>> \o chars[Head(p)] \o Flat(chars, Tail(p))
FlatOf(chars, top, x) == <<1>> \o Flat(chars, Tail2(x.p, Len(top))) \o (IF x.d THEN <<2>> ELSE <<>>)
At(f, l, k) == k + Len(l) - 1 <= Len(f) /\ \A j \in DOMAIN l : l[j] = 0 \/ l[j] = f[k + j - 1]
\* (the top is more than one character: any character may be its last one)
Matches(rx, f) == \E l \in rx.lits : \E k \in 1..Len(f) :
                    At(f, l, k) /\ (rx.bol => k = 1 /\ l[1] # 0) /\ (rx.eol => k + Len(l) - 1 = Len(f))

\* ---- indexing
\* A path given that's inside another one is not considered by itself
Reduced(args) == { a \in args : ~ \E b \in args : Inside(a, b) }
\* ex: excluded paths; rxs
Hit(chars, top, x, ex, rxs) == x.p \in ex \/ \E r \in rxs : Matches(r, FlatOf(chars, top, x))
\* Exclusions remove something and all that's below it, but not what was asked for itself
Walked(chars, top, W, a, ex, rxs) ==
  LET out == { x \in W : Inside(x.p, a) /\ Hit(chars, top, x, ex, rxs) }
  IN { x \in W : Begins(x.p, a) /\ ~ \E y \in out : Begins(x.p, y.p) }
Indexed(chars, top, ix, W, args, ex, rxs) ==
  LET tops == Reduced(args)
  IN { x \in ix : ~ \E a \in tops : Begins(x.p, a) }
     \cup UNION { Walked(chars, top, W, a, ex, rxs) : a \in tops }

\* ---- saving
Selected(ix, args) == { x \in ix : \E a \in args : Begins(x.p, a) }
\* Files may be left out for their size
Large(x, limit) == ~x.d /\ limit # 0 /\ x.s >= limit

\* Where a directory goes.  m.how: none, strip, strippath, graft
Longest(S) == CHOOSE q \in S : \A r \in S : Len(r) <= Len(q)
MapDir(m, args, d) ==
  CASE m.how \in {"strip", "strippath"} ->
         LET P == { q \in IF m.how = "strip" THEN args ELSE {m.path} : Begins(d, q) }
         IN IF P = {} THEN d ELSE Tail2(d, Len(Longest(P)))
    [] m.how = "graft" ->
         LET G == { j \in DOMAIN m.grafts : Begins(d, m.grafts[j].old) }
         IN IF G = {} THEN d
            ELSE LET g == m.grafts[MinOf(G)] IN g.new \o Tail2(d, Len(g.old))
    [] OTHER -> d
Place(m, args, x) == IF x.d THEN MapDir(m, args, x.p)
                     ELSE Append(MapDir(m, args, Parent(x.p)), x.p[Len(x.p)])

\* The snapshot's directories and other items
Dirs(m, args, S) == LET ds == { MapDir(m, args, IF x.d THEN x.p ELSE Parent(x.p)) : x \in S }
                    IN UNION { { SubSeq(d, 1, n) : n \in 0..Len(d) } : d \in ds }
Others(m, args, S) == { [p |-> Place(m, args, x), c |-> x.c] : x \in { y \in S : ~y.d } }

\* ---- When different things would get the same place.  save refuses some of that with an error.
Points(m, args) == CASE m.how = "strip" -> args
                     [] m.how = "strippath" -> {m.path}
                     [] m.how = "graft" -> { m.grafts[j].old : j \in DOMAIN m.grafts }
                     [] OTHER -> {}
\* the real directory (or none) behind every directory of the snapshot
Behind(m, args, d) == LET a == MapDir(m, args, d)
                      IN { [a |-> SubSeq(a, 1, n), r |-> IF Len(a) - n <= Len(d) /\ Tail2(a, n) = Tail2(d, Len(d) - Len(a) + n)
                                                        THEN SubSeq(d, 1, Len(d) - Len(a) + n) ELSE <<-1>>] : n \in 1..Len(a) }
Clash(m, args, S) ==
  LET real == UNION { Behind(m, args, IF x.d THEN x.p ELSE Parent(x.p)) : x \in S }
  IN \/ \E x, y \in real : x.a = y.a /\ x.r # y.r
     \/ \E x, y \in S : x.p # y.p /\ Place(m, args, x) = Place(m, args, y) /\ ~(x.d /\ y.d)
     \/ \E x \in S : ~x.d /\ Place(m, args, x) \in Dirs(m, args, S)
     \/ \E q \in Points(m, args), x \in S : Inside(q, IF x.d THEN x.p ELSE Parent(x.p))
     \* (something that's moved away, from between others)
     \/ \E q \in Points(m, args), b, c \in Reduced(args) :
          b # c /\ ~Begins(b, q) /\ ~Begins(c, q) /\ \E x \in S : Begins(x.p, q)
===============================================================================
