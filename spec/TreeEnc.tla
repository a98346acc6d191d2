------------------------------- MODULE TreeEnc -------------------------------
(* How a directory is stored in a git tree (S01): names are mangled so that chunked files can be
   told from directories, and the metadata records follow the order of the names.  A name is a
   sequence of tokens; Bup stands for ".bup". *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Tokens, Bup, L, M, D

EndsBup(n) == Len(n) > 0 /\ n[Len(n)] = Bup
But(n) == SubSeq(n, 1, Len(n) - 1)
\* (a single byte follows ".bup")
Marked(n) == EndsBup(n) \/ (Len(n) > 1 /\ EndsBup(But(n)))
\* kinds: f (one blob), c (chunks), d, l
Mangle(n, k) == IF k = "c" THEN n \o <<Bup>>
                ELSE IF Marked(n) THEN n \o <<Bup, L>> ELSE n
GitDir(k) == k \in {"c", "d"}
Demangle(m, dir) ==
  IF EndsBup(m) THEN [n |-> But(m), k |-> "c"]
  ELSE IF Len(m) > 1 /\ EndsBup(But(m)) /\ m[Len(m)] = L
  THEN [n |-> But(But(m)), k |-> IF dir THEN "d" ELSE "f"]
  ELSE [n |-> m, k |-> IF dir THEN "d" ELSE "f"]
\* Names with special meaning in a stored directory: .bupm and .bupd
Reserved(m) == m \in {<<Bup, M>>, <<Bup, D>>}
\* In a split directory, names ending in .bupd are parts of it.
PartName(m) == Len(m) > 1 /\ EndsBup(But(m)) /\ m[Len(m)] = D
=============================================================================
