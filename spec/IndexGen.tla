------------------------------ MODULE IndexGen ------------------------------
(* Generates scripts for the index and save: changes to a small tree, the passing of time,
   index runs (of all or of a part, perhaps racing with changes made while they start),
   saves to two repositories, and losses.  The state is the part of the file system needed
   to know which changes are possible. *)
EXTENDS Common, Json

CONSTANTS MaxLen, Faults   \* Faults: should saves and index runs meet errors?

Paths == {"a", "b", "d", "d/x", "d/y", "d/s", "d/s/z", "e", "e/z", "l"}
Par == [p \in Paths |-> CASE p \in {"d/x", "d/y", "d/s"} -> "d"
                          [] p = "d/s/z" -> "d/s" [] p = "e/z" -> "e" [] OTHER -> ""]
Contents == 1..5
Dirs == {"d", "d/s", "e"}
Files == Paths \ Dirs

VARIABLES typ, hist, racing, idxd, done,
          hot     \* files written while an index run started
vars == <<typ, hist, racing, idxd, done, hot>>

Under(p) == { q \in Paths : q = p \/ Par[q] = p \/ (Par[q] # "" /\ Par[Par[q]] = p) }
Ex(p) == typ[p] # "n"
Room(p) == ~Ex(p) /\ (Par[p] = "" \/ typ[Par[p]] = "d")

\* The changes possible now, each [op |-> ..., ...].
Change ==
  UNION { [op : {"write"}, p : { p \in Paths : typ[p] = "f" \/ (p \in Files /\ Room(p)) },
           c : Contents, keep : BOOLEAN],
          [op : {"replace"}, p : { p \in Paths : typ[p] \in {"f", "l"} }, c : Contents,
           keep : BOOLEAN],
          [op : {"rm"}, p : { p \in Paths : Ex(p) }],
          [op : {"mkdir"}, p : { p \in Paths : Room(p) }],
          [op : {"symlink"}, p : { p \in Files : Room(p) \/ typ[p] = "f" }, c : 1..2],
          [op : {"chmod"}, p : { p \in Paths : typ[p] \in {"f", "d"} }, c : 1..2],
          [op : {"touch"}, p : { p \in Paths : Ex(p) }, c : 0..3],
          [op : {"xattr"}, p : { p \in Paths : typ[p] \in {"f", "d"} }, c : 1..2],
          { x \in [op : {"link"}, p : { p \in Paths : typ[p] = "f" },
                   q : { q \in Files : Room(q) }] : TRUE },
          { x \in [op : {"move"}, p : { p \in Files : typ[p] \in {"f", "l"} },
                   q : { q \in Files : Room(q) \/ typ[q] \in {"f", "l"} }] : x.p # x.q },
          { x \in [op : {"move"}, p : {"d/s", "e"}, q : {"d/s", "e"}] :
              x.p # x.q /\ typ[x.p] = "d" /\ Room(x.q) } }

Z(p) == IF p = "e" THEN "e/z" ELSE "d/s/z"
After(x) ==
  CASE x.op \in {"write", "replace"} -> [typ EXCEPT ![x.p] = "f"]
    [] x.op = "rm" -> [q \in Paths |-> IF q \in Under(x.p) THEN "n" ELSE typ[q]]
    [] x.op = "mkdir" -> [typ EXCEPT ![x.p] = "d"]
    [] x.op = "symlink" -> [typ EXCEPT ![x.p] = "l"]
    [] x.op = "link" -> [typ EXCEPT ![x.q] = "f"]
    [] x.op = "move" /\ x.p \in Dirs /\ typ[x.p] = "d" ->
         [typ EXCEPT ![x.q] = "d", ![x.p] = "n", ![Z(x.q)] = typ[Z(x.p)], ![Z(x.p)] = "n"]
    [] x.op = "move" -> [typ EXCEPT ![x.q] = typ[x.p], ![x.p] = "n"]
    [] OTHER -> typ

\* What an index run was asked for has to stay while it runs.
Kept(x) == /\ racing
           /\ x.op \in {"rm", "move"} /\ x.p \in Dirs
           /\ LET s == hist[Len(hist)].sub IN s # "" /\ (s = x.p \/ Par[s] = x.p)
Allowed == { x \in Change : ~Kept(x) }
Kinds(x) == { c \in Allowed : c.op = x }
Weighted == <<"write", "write", "write", "write", "replace", "replace", "rm", "mkdir",
              "symlink", "chmod", "touch", "xattr", "link", "link", "move", "move">>
HotKinds == { x \in Change : /\ x.op = "write" /\ x.p \in hot /\ x.c \in {1, 2}
                              /\ typ[x.p] = "f" }
PickChange == IF ~racing /\ HotKinds # {} /\ RandomElement(1..3) < 3
              THEN RandomElement(HotKinds)
              ELSE LET ops == { o \in SetOf(Weighted) : Kinds(o) # {} }
                  k == RandomElement(DOMAIN Weighted)
              IN IF Weighted[k] \in ops THEN RandomElement(Kinds(Weighted[k]))
                 ELSE RandomElement(Allowed)

FaultsFor(ps) == IF ~Faults \/ ps = {} \/ RandomElement(1..3) = 1 THEN <<>>
                 ELSE LET f(n) == [p |-> RandomElement(ps),
                                   f |-> RandomElement({"open", "read", "lstat"})]
                      IN [i \in 1..RandomElement(1..2) |-> f(i)]

\* The tree the harness starts with.
Init == /\ typ = [p \in Paths |-> CASE p \in {"a", "b", "d/x", "d/s/z"} -> "f"
                                    [] p \in {"d", "d/s"} -> "d" [] OTHER -> "n"]
        /\ /\ hist = <<>> /\ racing = FALSE /\ idxd = FALSE
        /\ done = FALSE /\ hot = {}

Emit(x) == hist' = Append(hist, x)

DoChange == \E x \in {PickChange} :
  /\ IF racing
     THEN hist' = [hist EXCEPT ![Len(hist)].race = Append(@, x)]
     ELSE Emit(x)
  /\ typ' = After(x)
  /\ hot' = IF racing /\ x.op \in {"write", "replace"} THEN hot \cup {x.p} ELSE hot

Subs == {""} \cup { p \in {"d", "d/s", "e"} : typ[p] = "d" }
Sub == IF RandomElement(1..3) < 3 THEN "" ELSE RandomElement(Subs)

DoIndex ==
  LET fl == IF Faults /\ RandomElement(1..4) = 1 THEN FaultsFor({ p \in Paths : Ex(p) }) ELSE <<>>
  IN /\ Emit([op |-> "index", sub |-> Sub, race |-> <<>>, faults |-> fl])
     /\ racing' = (RandomElement(1..3) = 1)
     /\ idxd' = TRUE
     /\ hot' = {}
     /\ UNCHANGED typ

DoSave ==
  /\ Emit([op |-> "save", sub |-> Sub, repo |-> IF RandomElement(1..5) = 1 THEN 2 ELSE 1,
           faults |-> FaultsFor({ p \in Paths : Ex(p) })])
  /\ UNCHANGED <<typ, racing, idxd, hot>>

Plain(o) == Emit([op |-> o]) /\ UNCHANGED <<typ, racing, hot>>

Step ==
  /\ Len(hist) < MaxLen
  /\ done' = FALSE
  /\ IF racing
     THEN /\ DoChange /\ racing' = (RandomElement(1..2) = 1) /\ UNCHANGED idxd
     ELSE \E k \in {RandomElement(1..100)} :
       IF k <= 42 \/ (hot # {} /\ k > 97) THEN DoChange /\ UNCHANGED <<racing, idxd>>
       ELSE IF k <= 56 THEN Plain("tick") /\ UNCHANGED idxd
       ELSE IF k <= 75 \/ ~idxd THEN DoIndex
       ELSE IF k <= 95 THEN DoSave
       ELSE IF k <= 98 THEN Emit([op |-> "forget", repo |-> RandomElement(1..2)])
                            /\ UNCHANGED <<typ, racing, idxd, hot>>
       ELSE Plain("clear") /\ idxd' = FALSE

Finish ==
  /\ Len(hist) = MaxLen /\ ~done
  /\ PrintT("@@" \o ToJson(hist))
  /\ done' = TRUE
  /\ UNCHANGED <<typ, hist, racing, idxd, hot>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
