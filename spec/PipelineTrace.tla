--------------------------- MODULE PipelineTrace ---------------------------
(* The outcomes of the real two-thread pipeline.  One record stands for all  *)
(* runs (schedules, faults, delays) of one command that ended the same way:  *)
(* the returned count, the form left behind, and the forms the listener saw. *)
EXTENDS ClassGroupFast, Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
RECURSIVE Powers(_, _, _)
Powers(D, f, k) == IF k = 0 THEN <<>> ELSE LET g == SquareN(D, f, 1) IN <<g>> \o Powers(D, g, k - 1)
Form(a, b) == <<a, b>>
Outcome(e) ==
  LET x == Reduce(e.D, <<e.x[1], e.x[2]>>)
      pw == Powers(e.D, x, e.lis)
      exact == \A i \in 1..Len(e.lf) : e.lf[i] = pw[i]
  IN /\ e.lis \in 0..e.iters                                   \* numbered consecutively from the base
     /\ Len(e.lf) = e.lis
     /\ IF e.n = -1
        THEN e.f = e.x                                         \* corruption: the input is unchanged
        ELSE /\ e.n \in 0..e.iters
             /\ e.n = e.lis /\ exact                           \* as many squarings as the listener was told of, all exact
             /\ IsForm(e.D, e.f) /\ C4(e.D, e.f[1], e.f[2]) = e.f[3]
             /\ Reduce(e.D, <<e.f[1], e.f[2]>>) = IF e.n = 0 THEN x ELSE pw[e.n]
     /\ (e.must => e.n = e.seqn)                               \* a schedule alone changes nothing
Init == l = 1
Next == l <= Len(Trace) /\ Outcome(E) /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
                 \/ PrintT(<<"STUCK", TLCGet("stats").diameter>>) /\ FALSE
============================================================================
