------------------------------- MODULE Lookup -------------------------------
(* Finding objects through pack indexes, multi-pack indexes and bloom filters (O01).
   A directory has pack indexes (each with a set of objects), midx files (each made from some
   indexes, by name), and perhaps a bloom filter (which also knows from which indexes).  A reader
   loads them (Refresh), and then is asked for objects.  The files can be stale: made when the
   directory had other packs. *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Packs, Objs, Content,      \* Content: which objects each pack has
          BloomRule,                 \* "names": only trust a filter which covers all indexes
                                     \* "count": trust one with at least as many entries
          MidxRule                   \* "complete": ignore a midx with missing indexes, "any"
VARIABLES idx,    \* the packs present
          midx,   \* the midx files: a set of sets of packs
          bloom,  \* {} or {S}: the filter was made from the packs in S
          rdr     \* what the reader has loaded
vars == <<idx, midx, bloom, rdr>>

ObjsOf(S) == UNION { Content[p] : p \in S }
RECURSIVE SumSizes(_)
SumSizes(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE
                                     IN Cardinality(Content[p]) + SumSizes(S \ {p})
RECURSIVE TotalOf(_)
TotalOf(F) == IF F = {} THEN 0 ELSE LET S == CHOOSE S \in F : TRUE IN SumSizes(S) + TotalOf(F \ {S})

NoReader == [open |-> FALSE, files |-> {}, bloom |-> {}, known |-> {}]
Init == idx = {} /\ midx = {} /\ bloom = {} /\ rdr = NoReader

\* A pack arrives; perhaps without anyone updating the other files (git does that).
Add == \E p \in Packs \ idx : idx' = idx \cup {p} /\ UNCHANGED <<midx, bloom, rdr>>
\* Somebody else (git repack, say) removes a pack.
Remove == \E p \in idx : /\ idx' = idx \ {p} /\ UNCHANGED <<midx, bloom>> /\ rdr' = NoReader
\* gc: midx files and the filter are removed before any pack.
Collect == \E S \in SUBSET idx : /\ S # {} /\ idx' = idx \ S /\ midx' = {} /\ bloom' = {}
                                 /\ rdr' = NoReader
\* bup midx: some files are merged, incomplete midxes removed.
Merge == \E S \in SUBSET idx :
            /\ S # {} /\ midx' = { m \in midx : m \subseteq idx } \cup {S}
            /\ UNCHANGED <<idx, bloom, rdr>>
\* bup bloom: new indexes are added to the filter, unless it knows some which are gone.
Filter ==
  /\ idx # {}
  /\ bloom' = LET b == UNION bloom IN
              IF bloom # {} /\ SumSizes(b) = SumSizes(b \cap idx) THEN {b \cup idx} ELSE {idx}
  /\ UNCHANGED <<idx, midx, rdr>>

\* The files the reader uses: midxes which are complete, as long as they add something, and the
\* indexes which are in none of them.
Usable == IF MidxRule = "complete" THEN { m \in midx : m \subseteq idx } ELSE midx
Trusted(files) == IF bloom = {} THEN {}
                  ELSE IF BloomRule = "names"
                       THEN (IF UNION files \subseteq UNION bloom THEN bloom ELSE {})
                       ELSE (IF SumSizes(UNION bloom) >= TotalOf(files) THEN bloom ELSE {})
Refresh ==
  \E ms \in SUBSET Usable :
    /\ UNION ms = UNION Usable
    /\ LET files == ms \cup { {p} : p \in idx \ UNION ms }
       IN rdr' = [open |-> TRUE, files |-> files, bloom |-> Trusted(files), known |-> idx]
    \* the others are redundant, and are removed
    /\ midx' = ms
    /\ UNCHANGED <<idx, bloom>>

Next == Add \/ Remove \/ Collect \/ Merge \/ Filter \/ Refresh
Spec == Init /\ [][Next]_vars

\* The possible answers for o: the filter may be wrong about an object it doesn't have.
Answers(o) ==
  LET search == o \in UNION { ObjsOf(f) : f \in rdr.files }
  IN IF rdr.bloom # {} /\ o \notin ObjsOf(UNION rdr.bloom) THEN {search, FALSE} ELSE {search}

Exact == rdr.open => \A o \in Objs : Answers(o) = {o \in ObjsOf(rdr.known)}
\* A reader that isn't refreshed doesn't lose what it knew, whatever happens to the other files.
NeverForgets == rdr.open => rdr.known \subseteq idx
=============================================================================
