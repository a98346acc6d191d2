------------------------------- MODULE SplitMC -------------------------------
(* A splitter with a buffer of limited size, that reads as much or as little as it likes or gets,
   gives the chunks Split.tla wants; and the efficient form is what a chunking is. *)
EXTENDS Split, FiniteSets, TLC
CONSTANTS MaxByte, MaxLen, BufSz, Bad, MaxChunk

P == [w |-> 2, off |-> 1, bits |-> 2, half |-> 2, max |-> MaxChunk, fanbits |-> 1]
Bytes == 0..MaxByte
Strings == UNION { [1..n -> Bytes] : n \in 0..MaxLen }
VARIABLES files, keep, rest, cur, buf, eof, out, fin
vars == <<files, keep, rest, cur, buf, eof, out, fin>>
Init == /\ files \in { <<a, b>> : a, b \in { s \in Strings : Len(s) <= MaxLen - 2 } } \cup { <<a>> : a \in Strings }
        /\ keep \in BOOLEAN
        /\ rest = Tail(files) /\ cur = <<Head(files)>>   \* <<>>: no file any more
        /\ buf = <<>> /\ eof = FALSE /\ out = <<>> /\ fin = FALSE

\* cur' and rest' for the next file
Next1 == IF rest = <<>> THEN cur' = <<>> /\ rest' = <<>> ELSE cur' = <<Head(rest)>> /\ rest' = Tail(rest)
NextFile == /\ eof /\ cur # <<>> /\ (~keep \/ buf = <<>>)
            /\ Next1 /\ eof' = (Bad = "eof")
            /\ UNCHANGED <<files, keep, buf, out, fin>>
Read == /\ cur # <<>> /\ Len(buf) < BufSz /\ ~eof
        /\ IF cur[1] = <<>> THEN eof' = TRUE /\ UNCHANGED <<cur, buf>>
           ELSE \E n \in 1..Lo(Len(cur[1]), BufSz - Len(buf)) :
                  /\ cur' = << SubSeq(cur[1], n + 1, Len(cur[1])) >>
                  /\ buf' = buf \o SubSeq(cur[1], 1, n)
                  /\ UNCHANGED eof
        /\ UNCHANGED <<files, keep, rest, out, fin>>
Avail == SubSeq(buf, 1, Lo(Len(buf), IF Bad = "max" THEN Len(buf) ELSE P.max))
HitAt(p) == LET win == Window(P, buf, 1, p) IN Hit(P, S1(P, win), S2(P, win))
Hits == { p \in 1..Len(Avail) : HitAt(p) }
Give(n, level) == /\ out' = Append(out, [n |-> n, level |-> level])
                  /\ buf' = SubSeq(buf, n + 1, Len(buf))
                  /\ UNCHANGED <<files, keep, rest, cur, eof, fin>>
Emit == /\ buf # <<>>
        /\ IF Hits # {}
           THEN LET p == (CHOOSE x \in Hits : \A y \in Hits : x <= y)
                    win == Window(P, buf, 1, p)
                IN Give(p, Level(P, S1(P, win), S2(P, win)))
           ELSE IF Len(buf) >= P.max THEN Give(Len(Avail), 0)
           ELSE /\ \/ eof /\ (keep \/ (cur = <<>>))
                   \/ cur = <<>>
                   \/ Bad = "tail" /\ eof
                /\ Give(Len(buf), 0)
Finish == cur = <<>> /\ buf = <<>> /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<files, keep, rest, cur, buf, eof, out>>
Next == NextFile \/ Read \/ Emit \/ Finish
Spec == Init /\ [][Next]_vars

Whole == Expected(P, files, keep)
Right == fin => out = Whole
SoFar == Len(out) <= Len(Whole) /\ SubSeq(Whole, 1, Len(out)) = out
\* (of the files, so it's enough to see it once)
Chunking == fin /\ Len(files) = 1 => IsChunking(P, files[1], Chunks(P, files[1]))
Local == fin /\ Len(files) = 1 =>
           \A k \in DOMAIN Whole :
             Chunks(P, SubSeq(files[1], Ends(Whole, k) + 1, Len(files[1]))) = SubSeq(Whole, k + 1, Len(Whole))
Kept == fin => Leaves(Build(3, out)) = [k \in DOMAIN out |-> out[k].n]
NoStuck == ~fin => ENABLED Next
=============================================================================
