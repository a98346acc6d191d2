---------------------------------- MODULE Get ----------------------------------
(* What get does to the destination's references (T01).
   info: object -> [k, t, m, p]: its kind ("c", "t", "b"), and a commit's tree, message (with
   author and dates), and parent (0: none).
   R: the destination's references: a function from names (heads and tags) to values [o, h], where
   o is the object (0: not known yet) and h a commit's history, newest first: [t, m, o].
   A target is [m, src, dst]: the method; src.k: branch, save, commit, tree, blob, none, or others;
   src.o: the object, src.r: the reference it's named after (or "", for those inside of trees);
   dst.k: none, head, tag, other; dst.r: the reference.  im: what's missing is to be ignored. *)
EXTENDS Common

RECURSIVE HistOf(_, _)
HistOf(info, o) == IF o = 0 THEN <<>>
                   ELSE <<[t |-> info[o].t, m |-> info[o].m, o |-> o]>> \o HistOf(info, info[o].p)
Value(info, o) == [o |-> o, h |-> IF info[o].k = "c" THEN HistOf(info, o) ELSE <<>>]
Copies(h) == [k \in DOMAIN h |-> [h[k] EXCEPT !.o = 0]]

Commits == {"branch", "save", "commit"}
Trees == {"tree"}

Dest(t) ==
  IF t.dst.k # "none" THEN t.dst
  ELSE CASE t.m \in {"ff", "append"} /\ t.src.k \in {"branch", "save"} -> [k |-> "head", r |-> t.src.r]
         [] t.m \in {"pick", "force-pick"} /\ t.src.k = "save" -> [k |-> "head", r |-> t.src.r]
         [] t.m \in {"pick", "force-pick", "new-tag", "replace"} /\ t.src.tag -> [k |-> "tag", r |-> t.src.r]
         [] t.m = "replace" /\ t.src.k = "branch" -> [k |-> "head", r |-> t.src.r]
         [] OTHER -> t.dst

SourceOk(t) ==
  CASE t.m = "ff" -> t.src.k \in Commits
    [] t.m = "append" -> t.src.k \in Commits \cup Trees
    [] t.m \in {"pick", "force-pick"} -> t.src.k \in {"save", "commit"}
    [] t.m = "replace" /\ Dest(t).k = "head" -> t.src.k \in Commits
    [] OTHER -> t.src.k \in Commits \cup Trees \cup {"blob"} \/ (t.im /\ t.src.k = "none")
DestOk(t) ==
  CASE t.m \in {"ff", "append"} -> Dest(t).k = "head"
    [] t.m = "new-tag" -> Dest(t).k = "tag"
    [] t.m = "unnamed" -> Dest(t).k = "none"
    [] OTHER -> Dest(t).k \in {"head", "tag"}

Has(R, r) == r \in DOMAIN R
Old(R, r) == IF Has(R, r) THEN R[r] ELSE [o |-> 0, h |-> <<>>]
Allowed(info, R, t) ==
  /\ SourceOk(t) /\ DestOk(t)
  /\ LET r == Dest(t).r
     IN /\ t.m = "ff" /\ Has(R, r) => R[r].o \in { x.o : x \in SetOf(HistOf(info, t.src.o)) }
        /\ t.m = "new-tag" => ~Has(R, r)
        /\ t.m = "pick" /\ Dest(t).k = "tag" => ~Has(R, r)

New(info, R, t) ==
  LET old == Old(R, Dest(t).r)
      s == t.src.o
  IN CASE t.m \in {"ff", "replace", "new-tag"} -> Value(info, s)
       [] t.m = "append" /\ t.src.k = "tree" -> [o |-> 0, h |-> <<[t |-> s, m |-> 0, o |-> 0]>> \o old.h]
       [] t.m = "append" -> [o |-> 0, h |-> Copies(HistOf(info, s)) \o old.h]
       [] OTHER -> [o |-> 0, h |-> <<[t |-> info[s].t, m |-> info[s].m, o |-> 0]>> \o old.h]

Set(R, r, v) == [x \in DOMAIN R \cup {r} |-> IF x = r THEN v ELSE R[x]]
Apply(info, R, t) == IF t.m = "unnamed" THEN R ELSE Set(R, Dest(t).r, New(info, R, t))

\* All of the targets, in order; or nothing if one is refused
RECURSIVE ApplyAll(_, _, _)
ApplyAll(info, R, ts) ==
  IF ts = <<>> THEN [ok |-> TRUE, R |-> R]
  ELSE IF ~Allowed(info, R, Head(ts)) THEN [ok |-> FALSE, R |-> R]
  ELSE ApplyAll(info, Apply(info, R, Head(ts)), Tail(ts))

\* The objects that have to be transferred completely
Roots(info, t) ==
  IF t.im THEN {}
  ELSE IF t.m = "append" /\ t.src.k # "tree" THEN { x.t : x \in SetOf(HistOf(info, t.src.o)) }
  ELSE IF t.m \in {"pick", "force-pick"} THEN { info[t.src.o].t }
  ELSE { t.src.o }
===============================================================================
