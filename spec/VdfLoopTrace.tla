---------------------------- MODULE VdfLoopTrace ----------------------------
(* Validation of a recorded run of the real squaring loop: every batch call, *)
(* batch result, listener notification (with its form) and published count.  *)
EXTENDS ClassGroupFast, Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          D, Requested, running,
          d, df,        \* last delivered iteration and the exact form x^(2^d)
          b, bf,        \* start of the current batch and its exact form
          inCall,       \* inside an accelerated batch
          wrong,        \* a wrong form was delivered inside the current batch
          redo,         \* the batch reported corruption: it may be delivered again from its start
          pub, stop
run == <<D, Requested, running>>
vars == <<l, D, Requested, running, d, df, b, bf, inCall, wrong, redo, pub, stop>>
E == Trace[l]
Init == /\ l = 1 /\ D = "0" /\ Requested = 0 /\ running = FALSE
        /\ d = 0 /\ df = <<>> /\ b = 0 /\ bf = <<>> /\ inCall = FALSE /\ wrong = FALSE /\ redo = FALSE /\ pub = 0 /\ stop = FALSE
Start == /\ E.e = "start" /\ ~running
         /\ D' = E.D /\ Requested' = E.req /\ running' = TRUE
         /\ d' = 0 /\ df' = E.x /\ b' = 0 /\ bf' = E.x
         /\ inCall' = FALSE /\ wrong' = FALSE /\ redo' = FALSE /\ pub' = 0 /\ stop' = FALSE
\* what is published has been delivered, exactly, and never goes back
Pub(v, dd) == v >= pub /\ v <= dd /\ pub' = v

Call == /\ E.e = "call" /\ ~inCall /\ ~stop /\ ~redo
        /\ E.base = d /\ E.f = df          \* continues from the form of the last iteration
        /\ (Requested # 0 => d <= Requested)               \* else it had to end
        /\ inCall' = TRUE /\ b' = d /\ bf' = df /\ wrong' = FALSE
        /\ Pub(E.pub, d) /\ UNCHANGED <<d, df, redo, stop>>
\* one notification with its form, or a run of consecutive ones recorded by number only
Deliver ==
  /\ E.e \in {"it", "its"}
  /\ LET again == redo                                   \* after corruption the batch is delivered again from its start
         from == IF again THEN bf ELSE df
         to == IF E.e = "it" THEN E.i ELSE E.j
         f2 == SquareN(D, from, to - E.i + 1)
         ok == IF E.e = "it" THEN E.f = f2 ELSE TRUE
     IN /\ E.i = (IF again THEN b ELSE d) + 1
        /\ (~inCall => ok)
        /\ wrong' = (wrong \/ (inCall /\ ~ok))
        /\ d' = to /\ df' = f2
        /\ redo' = (redo /\ ~again)
  /\ Pub(E.pub, IF inCall \/ redo THEN b ELSE d)           \* nothing of an unfinished batch is published
  /\ UNCHANGED <<b, bf, inCall, stop>>
Ret == /\ E.e = "ret" /\ inCall
       /\ inCall' = FALSE
       /\ IF E.n = -1 THEN redo' = TRUE
          ELSE redo' = FALSE /\ ~wrong /\ E.n = d - b
       /\ UNCHANGED <<d, df, b, bf, wrong, pub, stop>>
StopEv == E.e = "stop" /\ stop' = TRUE /\ UNCHANGED <<d, df, b, bf, inCall, wrong, redo, pub>>
End == /\ E.e = "end" /\ ~inCall /\ ~redo
       /\ (~stop => (Requested # 0 /\ d > Requested))
       /\ Pub(E.pub, d)
       /\ (~stop => E.pub = d)
       /\ running' = FALSE /\ UNCHANGED <<D, Requested, d, df, b, bf, inCall, wrong, redo, stop>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Start \/ (running /\ ((Call \/ Deliver \/ Ret \/ StopEv) /\ UNCHANGED run)) \/ (running /\ End))
Spec == Init /\ [][Next]_vars
TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace) /\ Trace[Len(Trace)].e = "end"
                 \/ PrintT(<<"STUCK", TLCGet("stats").diameter>>) /\ FALSE
===========================================================================
