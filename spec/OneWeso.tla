------------------------------ MODULE OneWeso ------------------------------
(* Simple mode: one requested count.  The loop delivers batches (ending at   *)
(* any iteration), publishes its count at checkpoints and when it ends; the  *)
(* callback keeps the powers at multiples of the stride up to the request    *)
(* and the form of the requested iteration; the proving thread polls the     *)
(* published count, proves step by step, and gives up when stopped.          *)
EXTENDS Integers, FiniteSets
CONSTANTS T, Stride, Batch, Seg, Steps
VARIABLES n, cp, pub, stored, result, loop, prover, step, stopped, sent
vars == <<n, cp, pub, stored, result, loop, prover, step, stopped, sent>>
Init == n = 0 /\ cp = 0 /\ pub = 0 /\ stored = {0} /\ result = -1 /\ loop = "run" /\ prover = "wait" /\ step = 0 /\ stopped = FALSE /\ sent = FALSE
RunBatch(k) == /\ loop = "run" /\ ~stopped
               /\ n' = n + k
               /\ stored' = stored \cup {i \in (n + 1)..(n + k) : i <= T /\ i % Stride = 0}
               /\ result' = IF T \in (n + 1)..(n + k) THEN T ELSE result
               /\ LET hit == n + k >= cp  over == n + k > T IN
                  /\ cp' = IF hit THEN cp + Seg ELSE cp
                  /\ pub' = IF hit \/ over THEN n + k ELSE pub
                  /\ loop' = IF over THEN "end" ELSE "run"
               /\ UNCHANGED <<prover, step, stopped, sent>>
LoopStop == loop = "run" /\ stopped /\ loop' = "end" /\ UNCHANGED <<n, cp, pub, stored, result, prover, step, stopped, sent>>
Poll == /\ prover = "wait" /\ (stopped \/ pub >= T)
        /\ prover' = IF stopped THEN "end" ELSE "prove"
        /\ UNCHANGED <<n, cp, pub, stored, result, loop, step, stopped, sent>>
Prove == /\ prover = "prove"
         /\ IF stopped THEN prover' = "end" /\ UNCHANGED <<step, sent>>
            ELSE IF step < Steps THEN step' = step + 1 /\ UNCHANGED <<prover, sent>>
            ELSE prover' = "end" /\ sent' = TRUE /\ UNCHANGED step
         /\ UNCHANGED <<n, cp, pub, stored, result, loop, stopped>>
Stop == ~stopped /\ stopped' = TRUE /\ UNCHANGED <<n, cp, pub, stored, result, loop, prover, step, sent>>
Over == loop = "end" /\ prover = "end"
Done == Over /\ UNCHANGED vars
Next == (\E k \in 1..Batch : RunBatch(k)) \/ LoopStop \/ Poll \/ Prove \/ Stop \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars((\E k \in 1..Batch : RunBatch(k)) \/ LoopStop) /\ WF_vars(Poll \/ Prove)
\* what the proof is built from is complete before proving starts
Ready == prover = "prove" \/ sent => result = T /\ {i \in 0..T : i % Stride = 0} \subseteq stored
OnlyMultiples == \A i \in stored : i % Stride = 0 /\ i <= T
Answer == Over => (sent \/ stopped)
Ends == <>Over
=============================================================================
