------------------------------ MODULE TraceBase ------------------------------
(* What the trace specifications share: a trace T is a record whose ev is a sequence of events;
   each event is checked by some clauses, and the failing ones are collected. *)
EXTENDS Common, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, bad
base == <<tid, i, bad>>
T == Traces[tid]

BaseInit == /\ tid \in DOMAIN Traces
            /\ i = 1
            /\ bad = {}
            /\ TLCSet(tid, <<0, {}>>)

\* clauses(e): a sequence of <<name, holds>>
BaseNext(clauses(_)) ==
  /\ i <= Len(T.ev)
  /\ bad' = bad \cup { <<i, c>> : c \in Failing(clauses(T.ev[i])) }
  /\ i' = i + 1
  /\ tid' = tid
  /\ TLCSet(tid, <<i, bad'>>)

RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>>
            ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})

Report ==
  JsonSerialize(IOEnv.VERDICTS,
    [k \in DOMAIN Traces |->
       [pos |-> TLCGet(k)[1], len |-> Len(Traces[k].ev), bad |-> AsSeq(TLCGet(k)[2])]])
=============================================================================
