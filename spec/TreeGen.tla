------------------------------- MODULE TreeGen -------------------------------
(* Generates trees to save, with all kinds of names, types and metadata, and what to restore from
   them and where (S01, X01).  Names are numbers of a table of the harness. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxNodes, NNames, NRestores
VARIABLES n
Pick(S) == RandomElement(S)
One(k) == Pick(1..k) = 1
Node(j) == [parent |-> Pick(0..(j - 1)), name |-> IF One(2) THEN Pick(1..8) ELSE Pick(1..NNames),
            kind |-> Pick({"d", "d", "d", "f", "f", "f", "f", "h", "h", "l", "p", "s", "w"}),
            size |-> Pick({"empty", "tiny", "tiny", "small", "same", "big", "sparse", "zeros"}),
            mode |-> Pick({"plain", "plain", "plain", "none", "suid", "sticky", "odd"}),
            owner |-> Pick({"root", "root", "daemon", "unknown", "mixed"}),
            mtime |-> Pick({"now", "now", "old", "negative", "future", "fraction", "zero"}),
            xattr |-> Pick({"", "", "", "one", "two", "empty", "long"}),
            acl |-> Pick({"", "", "", "", "", "acl"}),
            target |-> Pick({"abs", "rel", "long", "dangling", "odd"}), to |-> Pick(0..99)]
Ex(k) == [k |-> Pick({"file", "dir", "inside", "top", "topfile"}), n |-> Pick(0..99)]
\* of: any item, a hard link, one with another's name
Arg(k) == [n |-> Pick(0..999), of |-> Pick({"any", "any", "any", "link", "link", "same"}), form |-> Pick({"item", "item", "item", "inside", "dot"}), by |-> Pick({"latest", "date"}),
           bad |-> Pick({"", "", "", "", "", "", "", "missing", "norev", "through"})]
\* What's in the output already
Pre(k) == [at |-> Pick(0..999), kind |-> Pick({"f", "f", "d", "dd", "l", "lf", "ld"}), other |-> One(3)]
\* Restores (most of them succeed)
Rest(k) == [args |-> [x \in 1..Pick({1, 1, 1, 2, 3, 5}) |-> Arg(x)],
            ex |-> IF One(3) THEN [x \in 1..Pick(1..3) |-> Ex(x)] ELSE <<>>, exfrom |-> One(3),
            pre |-> IF One(2) THEN [x \in 1..Pick(1..6) |-> Pre(x)] ELSE <<>>,
            sparse |-> One(3), numeric |-> One(3), v |-> Pick(0..2), nodir |-> One(6), again |-> One(4),
            map |-> Pick({"", "", "user", "group", "uid", "gid", "clear", "all"}), remote |-> One(8)]
Init == n = 0
Next == /\ n = 0 /\ n' = 1
        /\ PrintT("@@" \o ToJson([nodes |-> [j \in 1..Pick(5..MaxNodes) |-> Node(j)],
             wide |-> IF One(4) THEN Pick(150..500) ELSE 0,
             trees |-> One(2), bits |-> Pick({"", "", "13", "16"}), level |-> Pick({0, 1, 9}),
             strip |-> One(3), two |-> One(3), restores |-> [k \in 1..NRestores |-> Rest(k)]]))
Spec == Init /\ [][Next]_n
=============================================================================
