---------------------------- MODULE ManagerTrace ----------------------------
(* Scripts run against the real manager of segment provers: what runs, what  *)
(* waits and what was answered after every step, against the specification.  *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, n, done, open, slept, known
\* k: [lengths, threads]; known = FALSE once provers ended without being listed one by one
vars == <<l, k, n, done, open, slept, known>>
E == Trace[l]
Pow4[i \in Nat] == IF i = 0 THEN 1 ELSE 4 * Pow4[i - 1]
Better(s, t) == s[2] < t[2] \/ (s[2] = t[2] /\ s[1] < t[1])
BestOf(S, c) == {s \in S : Cardinality({t \in S : Better(t, s)}) < c}
Announced(m) == UNION {{<<j * Pow4[i], Pow4[i]>> : j \in 0..(m \div Pow4[i] - 1)} : i \in 0..(k.lengths - 1)}
SetOf(q) == {q[i] : i \in DOMAIN q}
MaxParts == 63
\* requests are <<id, b, rest>>
Answers == SetOf(E.ans)
Opens == SetOf(E.open)
Shape == /\ E.quiet = 1 /\ E.odd = <<>> /\ E.maxrun <= k.threads
         /\ LET cand == Announced(n') \ done'  run == SetOf(E.run)  idle == SetOf(E.idle)
            IN known' => /\ run \subseteq cand /\ idle \subseteq cand \ run
                         /\ Cardinality(run) <= k.threads
                         \* the shorter, then the earlier segments run; a prover that is only about to end may still hold its place
                         /\ run = BestOf(cand, Cardinality(run))
                         /\ (E.exact => run = BestOf(cand, k.threads))
\* a short segment was proved, everything below b is proved in short segments, and the loop has passed b
\* (a request that found too few segments when it was woken tries again when its long sleep ends)
Can(q, d) == q[2] <= n /\ q[2] <= MaxParts /\ \A u \in 0..(q[2] - 1) : <<u, 1>> \in d
Must(d) == {q \in open \ slept : Can(q, d)}
Start == /\ E.c = "start" /\ k' = [lengths |-> E.lengths, threads |-> E.threads] /\ n' = 0 /\ done' = {} /\ open' = {} /\ known' = TRUE
Keep == UNCHANGED k
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ Start
     \/ /\ E.c = "A" /\ E.n >= n /\ n' = E.n /\ done' = done /\ known' = known /\ Keep /\ Shape
        /\ Answers \cup Opens = open /\ Answers \cap Opens = {} /\ open' = Opens
        /\ \A q \in open : q[2] = 0 => q \in Answers
     \/ /\ E.c = "F" /\ n' = n /\ done' = done \cup {<<E.s, E.len>>} /\ known' = known /\ Keep /\ Shape
        /\ <<E.s, E.len>> \in Announced(n) \ done
        /\ Answers \cup Opens = open /\ Answers \cap Opens = {} /\ open' = Opens
        /\ (known /\ E.len = 1) => Must(done') \subseteq Answers
     \/ /\ E.c = "Q" /\ n' = n /\ done' = done /\ known' = known /\ Keep /\ Shape
        /\ LET q == <<E.id, E.b, E.rest>>
           IN /\ Answers \cup Opens = open \cup {q} /\ Answers \cap Opens = {} /\ open' = Opens
              /\ q[2] = 0 => q \in Answers
     \/ /\ E.c \in {"T", "W"} /\ n' = n /\ done' = done /\ known' = known /\ Keep /\ Shape
        /\ Answers \cup Opens = open /\ Answers \cap Opens = {} /\ open' = Opens
        /\ (known /\ E.c = "T") => {q \in slept : Can(q, done)} \subseteq Answers
     \/ /\ E.c = "R" /\ n' = E.n /\ known' = FALSE /\ done' = done /\ Keep /\ Shape
        /\ Answers \cup Opens = open \cup SetOf(E.asked) /\ Answers \cap Opens = {} /\ open' = Opens
     \* everything stored was proved, and every request that the loop has passed and that fits is answered
     \/ /\ E.c = "D" /\ n' = E.n /\ known' = known /\ done' = Announced(E.n) /\ Keep /\ Shape
        /\ E.run = <<>> /\ E.idle = <<>>
        /\ Answers \cup Opens = open /\ Answers \cap Opens = {} /\ open' = Opens
        /\ \A q \in open : q[2] < E.n => q \in Answers
     \/ /\ E.c = "S" /\ UNCHANGED <<n, done, known>> /\ Keep
        /\ E.hang = "" /\ E.open = <<>> /\ E.odd = <<>> /\ open' = {}
  /\ slept' = IF E.c = "start" THEN {} ELSE SetOf(E.sleep)
  /\ E.c = "start" \/ (\A q \in Answers : q[2] <= n')
Init == l = 1 /\ k = [lengths |-> 1, threads |-> 1] /\ n = 0 /\ done = {} /\ open = {} /\ slept = {} /\ known = TRUE
Spec == Init /\ [][Step]_vars
TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
                 \/ PrintT(<<"STUCK", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
