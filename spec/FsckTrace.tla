----------------------------- MODULE FsckTrace -----------------------------
(* "killed" has the packs whose verification (by fsck, or its worker for that pack) was killed.
   Checks recorded fsck runs against Fsck.tla (F01).  An event has the request, and for each pack
   in pre/post: its state, and (post) whether the files are what they were before ("same..."),
   and (for -v) what was said about it. *)
EXTENDS TraceBase, Fsck

Asked(e) == { n \in DOMAIN e.pre : n \in SetOf(e.asked) }
R(e) == [mode |-> e.mode, quick |-> e.quick, par2 |-> e.par2]
Code(e) == IF e.rc = 0 THEN "zero" ELSE IF e.rc = 1 THEN "one" ELSE "error"
Of(e, n) == IF n \in SetOf(e.killed) THEN {"failed"} ELSE Outcomes(e.pre[n], R(e))
\* Without jobs, everything is in one process, which is gone
Dead(e) == e.killed # <<>> /\ e.jobs = 0
Combos(e) == { f \in [Asked(e) -> {"ok", "repaired", "failed"}] :
                 \A n \in Asked(e) : f[n] \in Of(e, n) /\ (e.said[n] # "" => f[n] = e.said[n]) }
Sound(x) == x.pack = "ok" /\ x.idx = "ok"

Clauses(e) ==
  IF ~e.par2 /\ e.mode # "verify"
  THEN << <<"F01.needs-par2", Code(e) = "error" /\ e.same>> >>
  ELSE
  << \* Exit status and what was said agree with some possible outcomes
     <<"F01.exit", (Dead(e) /\ Code(e) = "error") \/ Code(e) \in { Exit({ f[n] : n \in Asked(e) }) : f \in Combos(e) }>>,
     <<"F01.verify-changes", e.mode = "verify" => e.same>>,
     <<"F01.others", \A n \in DOMAIN e.pre \ Asked(e) : e.kept[n] /\ e.keptrec[n]>>,
     \* After a success there's nothing wrong with any pack
     <<"F01.repaired", (e.mode = "repair" /\ Code(e) # "error") =>
          \A n \in Asked(e) : e.post[n].pack = "ok"
             /\ (e.post[n].idx = "ok" \/ (e.quick /\ e.post[n].idx = "other"))>>,
     \* A pack that's sound, or can be repaired, is after a repair, whatever is wrong with others
     <<"F01.repairs", e.mode = "repair" /\ ~Dead(e) => \A n \in Asked(e) :
          Of(e, n) \subseteq {"ok", "repaired"} => e.post[n].pack = "ok"
             /\ (e.post[n].idx = "ok" \/ (e.quick /\ e.post[n].idx = "other"))>>,
     <<"F01.sound-kept", \A n \in Asked(e) : Sound(e.pre[n]) => e.kept[n]>>,
     \* What can't be repaired isn't made worse
     <<"F01.not-worse", \A n \in Asked(e) : Of(e, n) = {"failed"} => e.kept[n]>>,
     <<"F01.generated", e.mode = "generate" => \A n \in Asked(e) :
          /\ e.kept[n]
          /\ (Of(e, n) = {"ok"} => e.post[n].rec = (CASE e.pre[n].rec # "none" -> e.pre[n].rec
                                                 [] e.pre[n].pack = "ok" -> "ok" [] OTHER -> "wrong"))
          /\ (e.pre[n].rec # "none" => e.keptrec[n])>>,
     <<"F01.litter", e.litter = <<>> >> >>
Spec == BaseInit /\ [][BaseNext(Clauses)]_base
=============================================================================
