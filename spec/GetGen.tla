--------------------------------- MODULE GetGen ---------------------------------
(* Generates histories of two repositories and the gets between them.  heads and tags are what
   probably exists. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Len0
VARIABLES hist, done, heads, tags
vars == <<hist, done, heads, tags>>
Pick(S) == RandomElement(S)
Repos == {"A", "B"}
Heads == {"a", "b", "c"}
Tags == {"t", "u"}
Methods == {"ff", "append", "pick", "force-pick", "new-tag", "replace", "unnamed"}
Some(S, T) == IF S = {} \/ Pick(1..16) = 1 THEN Pick(T) ELSE Pick(S)
\* Kinds of sources that often make sense; n: k-th newest; p: something inside
Kind(m, tagged) ==
  LET x == Pick(1..30)
      k == IF x = 1 THEN Pick({"root", "tags", "none"})
           ELSE IF m = "ff" THEN Pick({"branch", "save", "latest", "tag"})
           ELSE IF m = "append" THEN Pick({"branch", "save", "latest", "tag", "below", "belowtag"})
           ELSE IF m \in {"pick", "force-pick"} THEN (IF x = 2 THEN "branch" ELSE Pick({"save", "latest", "tag"}))
           ELSE IF m = "replace" THEN Pick({"branch", "save", "latest", "tag", "below"})
           ELSE Pick({"branch", "save", "latest", "tag", "below", "belowtag"})
  IN IF k \in {"tag", "belowtag"} /\ ~tagged /\ x > 3 THEN "save" ELSE k
Src(from, m) == [k |-> Kind(m, tags[from] # {}), h |-> Some(heads[from] \ (IF m = "ff" THEN {"c"} ELSE {}), Heads), n |-> Pick(1..3), t |-> Some(tags[from], Tags), p |-> Pick({"d", "f", "big", "d/g"})]
\* A destination is needed unless the source names one
DKind(m, sk) ==
  LET x == Pick(1..24)
      named == \/ m \in {"ff", "append", "replace"} /\ sk \in {"branch", "save", "latest"}
               \/ m \in {"pick", "force-pick"} /\ sk \in {"save", "latest"}
               \/ m \in {"pick", "force-pick", "new-tag", "replace"} /\ sk = "tag"
  IN IF m = "unnamed" THEN (IF x = 1 THEN "head" ELSE "none")
     ELSE IF x = 1 THEN "other" ELSE IF x = 2 \/ (named /\ x <= 8) THEN "none"
     ELSE IF m \in {"ff", "append"} THEN (IF x = 3 THEN "tag" ELSE "head")
     ELSE IF m = "new-tag" THEN (IF x = 3 THEN "head" ELSE "tag")
     ELSE IF m = "replace" /\ sk \in {"below", "tag"} /\ x # 3 THEN "tag"
     ELSE Pick({"head", "head", "tag"})
Dst(to, m, sk) == [k |-> DKind(m, sk), h |-> IF m = "ff" THEN Pick({<<1, "c">>, <<2, "c">>, <<3, "c">>, <<4, "a">>, <<5, "b">>})[2] ELSE Pick({<<1, "a">>, <<2, "b">>, <<3, "a">>, <<4, "b">>, <<5, "c">>})[2],
                   t |-> IF m \in {"pick", "new-tag"} THEN Some(Tags \ tags[to], Tags) ELSE Pick(Tags),
                   slash |-> Pick(BOOLEAN), which |-> Pick(1..4)]
TargetOf(to, m, src) == [m |-> m, src |-> src, dst |-> Dst(to, m, src.k), copy |-> Pick(1..3) = 1, im |-> Pick(1..2) = 1]
Target2(from, to, m) == TargetOf(to, m, Src(from, m))
Target(from, to) == Target2(from, to, Pick(Methods))
Get(from, to) ==
  \E n \in {Pick({<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<3, 1>>})[1]} :
  \E x \in {Target(from, to)}, y \in {Target(from, to)}, z \in {Target(from, to)} :
  \E ts \in {SubSeq(<<x, y, z>>, 1, n)} :
     /\ hist' = Append(hist, [op |-> "get", from |-> from, ts |-> ts, how |-> Pick(1..8), c |-> Pick(BOOLEAN), t |-> Pick(BOOLEAN),
                              g |-> Pick(BOOLEAN), z |-> Pick(0..9)])
     /\ heads' = [heads EXCEPT ![to] = @ \cup { ts[j].dst.h : j \in { k \in 1..n : ts[k].dst.k = "head" } }]
     /\ tags' = [tags EXCEPT ![to] = @ \cup { ts[j].dst.t : j \in { k \in 1..n : ts[k].dst.k = "tag" } }]
New(r, h, c) == /\ hist' = Append(hist, [op |-> "new", repo |-> r, h |-> h, c |-> c])
                /\ heads' = [heads EXCEPT ![r] = @ \cup {h}] /\ UNCHANGED tags
Tag(r, t) == /\ hist' = Append(hist, [op |-> "tag", repo |-> r, t |-> t, k |-> Pick({"commit", "tree", "blob"}), h |-> Some(heads[r], Heads), n |-> Pick(1..3)])
             /\ tags' = [tags EXCEPT ![r] = @ \cup {t}] /\ UNCHANGED heads
Drop(r, h) == /\ hist' = Append(hist, [op |-> "drop", repo |-> r, h |-> h])
              /\ heads' = [heads EXCEPT ![r] = @ \ {h}] /\ UNCHANGED tags
Lose == /\ hist' = Append(hist, [op |-> "lose", repo |-> "A", r |-> Pick(0..1000)])
        /\ UNCHANGED <<heads, tags>>
Event == LET x == Pick(1..12)
             r == Pick(Repos)
         IN IF Len(hist) < 4 THEN New(IF Len(hist) = 3 THEN "B" ELSE "A", IF Len(hist) = 1 THEN "b" ELSE "a", Pick(1..5))
            ELSE IF x <= 3 THEN New(r, Pick({"a", "b"}), Pick(1..5))
            ELSE IF x = 4 THEN Tag(r, Pick(Tags))
            ELSE IF x = 5 THEN (IF Len(hist) > 8 THEN Lose ELSE Drop(r, Pick(Heads)))
            ELSE Get(r, IF r = "A" THEN "B" ELSE "A")
Init == hist = <<>> /\ done = FALSE /\ heads = [r \in Repos |-> {}] /\ tags = [r \in Repos |-> {}]
Next == \/ Len(hist) < Len0 /\ Event /\ done' = FALSE
        \/ Len(hist) = Len0 /\ ~done /\ PrintT("@@" \o ToJson([ev |-> hist])) /\ done' = TRUE /\ UNCHANGED <<hist, heads, tags>>
Spec == Init /\ [][Next]_vars
================================================================================
