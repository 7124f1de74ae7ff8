------------------------------ MODULE VdfLoop ------------------------------
(* The squaring loop around the accelerated batches, at the level of        *)
(* iteration numbers.  A batch may complete, stop early after any number of *)
(* iterations, or report corruption after having notified the listener any  *)
(* number of times, possibly with wrong forms.  good[i] says whether the    *)
(* latest delivery of iteration i carried the exact form.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Batch, Seg, Max, Requested, TwoWeso, Switch, Round, Limit
VARIABLES n,          \* iterations completed (the form in hand is x^(2^n))
          cp,         \* next checkpoint
          pub,        \* published count
          good,       \* set of iterations whose latest delivery is exact
          dlv,        \* last delivered iteration
          pc, stop, large, script
vars == <<n, cp, pub, good, dlv, pc, stop, large, script>>

Init == n = 0 /\ cp = 0 /\ pub = 0 /\ good = {} /\ dlv = 0 /\ pc = "batch" /\ stop = FALSE /\ large = FALSE /\ script = <<>>

Outcome == {[kind |-> "C", k |-> Batch]} \cup {[kind |-> "E", k |-> k] : k \in 0..(Batch - 1)} \cup {[kind |-> "X", k |-> k] : k \in 0..Batch}

\* one loop iteration: the fast batch, its repair, then bookkeeping
Run(o) ==
  /\ pc = "batch" /\ ~stop
  /\ script' = Append(script, o)
  /\ LET done == CASE o.kind = "C" -> Batch [] o.kind = "E" -> o.k + 1 [] OTHER -> Batch
         \* deliveries of a corrupted batch may be wrong, those of the repair are exact
         bad == IF o.kind = "X" THEN (n + 1)..(n + o.k) ELSE {}
         good1 == (good \ bad) \cup ((n + 1)..(n + done))
     IN /\ good' = good1
        /\ n' = n + done
        /\ dlv' = n + done
        /\ pc' = "mark"
  /\ UNCHANGED <<cp, pub, stop, large>>

Mark ==
  /\ pc = "mark"
  /\ LET hit == n >= cp
         grow == TwoWeso /\ hit /\ n >= Switch /\ ~large
         n2 == IF grow THEN n + ((Round - (n % Round)) % Round) ELSE n
         full == TwoWeso /\ hit /\ n2 >= Limit
         over == Requested # 0 /\ n2 > Requested
     IN /\ n' = n2 /\ dlv' = n2
        /\ good' = good \cup ((n + 1)..n2)
        /\ large' = (large \/ grow)
        /\ cp' = IF hit /\ ~full THEN cp + Seg ELSE cp
        /\ pub' = IF hit \/ over THEN n2 ELSE pub
        /\ pc' = IF full \/ over \/ n2 > Max THEN "end" ELSE "batch"
  /\ UNCHANGED <<stop, script>>
Stop == ~stop /\ stop' = TRUE /\ UNCHANGED <<n, cp, pub, good, dlv, pc, large, script>>
Leave == pc = "batch" /\ stop /\ pc' = "end" /\ UNCHANGED <<n, cp, pub, good, dlv, stop, large, script>>
Done == pc = "end" /\ UNCHANGED vars
Next == (\E o \in Outcome : Run(o)) \/ Mark \/ Stop \/ Leave \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars((\E o \in Outcome : Run(o)) \/ Mark \/ Leave)

\* printing the sequences of batch outcomes for replay
Emit == pc = "batch" => PrintT(ToJson(script))
Depth3 == Len(script) <= 3
Depth4 == Len(script) <= 4
Exact == good = 1..dlv                 \* every delivered iteration ended up exact, none missing
Published == pub <= dlv /\ (1..pub) \subseteq good
Complete == dlv = n
NoOverrun == pc = "batch" => (Requested = 0 \/ n <= Requested)
Ends == <>(pc = "end")
Lag == pc = "batch" => cp > n - Batch - Round - Seg       \* the published count lags by at most a checkpoint or so
===========================================================================
