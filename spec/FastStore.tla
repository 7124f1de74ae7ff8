----------------------------- MODULE FastStore -----------------------------
(* Storage of intermediates in n-Wesolowski mode.  Per segment length p      *)
(* (bucket) every Kl-th power of a segment is kept, in a ring of W segments. *)
(* Mode "loop": the squaring loop stores a power when it passes it.          *)
(* Mode "workers": the loop only publishes half-segment checkpoints; workers *)
(* take the earliest pending one, recompute its powers and mark the half as  *)
(* finished; a segment is announced when both halves are.                    *)
(* Provers read any power of an announced segment, at most W*p behind.       *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS W, Half, Buckets, End, Workers, Mode, Factor
\* segment lengths: 2*Half, 2*Half*Factor, ...; strides 2, 3, 3*Factor, ...
Len_(b) == 2 * Half * Factor ^ b
Kl(b) == IF b = 0 THEN 2 ELSE 3 * Factor ^ (b - 1)
Size(b) == (Len_(b) + Kl(b) - 1) \div Kl(b)
B == 0..(Buckets - 1)
Begin[b \in Nat] == IF b = 0 THEN 0 ELSE Begin[b - 1] + W * Size(b - 1)
Capacity == Begin[Buckets]
Stored(b, e) == (e % Len_(b)) % Kl(b) = 0
Slot(b, e) == Begin[b] + ((e \div Len_(b)) % W) * Size(b) + (e % Len_(b)) \div Kl(b)
VARIABLES n,        \* powers passed by the loop
          mem,      \* slot -> exponent of the power in it (-1: none)
          pend, work, fin   \* half-segments: waiting, being recomputed (start -> next exponent), finished
vars == <<n, mem, pend, work, fin>>
Writes(m, e) == [s \in DOMAIN m |-> IF \E b \in B : Stored(b, e) /\ Slot(b, e) = s THEN e ELSE m[s]]
Init == /\ n = 0 /\ mem = Writes([s \in 0..(Capacity - 1) |-> -1], 0)
        /\ pend = (IF Mode = "workers" THEN {0} ELSE {})
        /\ work = <<>> /\ fin = {}
\* announced: everything below is stored
Announced == IF Mode = "loop" THEN n + 1
             ELSE LET bad == {s \in 0..(End + Half) : s % Half = 0 /\ s \notin fin} IN CHOOSE s \in bad : \A t \in bad : s <= t
Square == /\ n < End
          \* provers and workers are never left behind by more than the window; in workers mode nothing is recomputed
          \* for a segment whose slots a late prover may still need, so the backlog is bounded by half the window
          /\ Mode = "workers" => n + 1 < Announced + Half * W
          /\ n' = n + 1
          /\ mem' = IF Mode = "loop" THEN Writes(mem, n + 1) ELSE mem
          /\ pend' = IF Mode = "workers" /\ (n + 1) % Half = 0 THEN pend \cup {n + 1} ELSE pend
          /\ UNCHANGED <<work, fin>>
Take == /\ pend # {} /\ Len(work) < Workers
        /\ LET s == CHOOSE s \in pend : \A t \in pend : s <= t
           IN pend' = pend \ {s} /\ work' = Append(work, <<s, s>>)
        /\ UNCHANGED <<n, mem, fin>>
Step(i) == LET s == work[i][1] e == work[i][2] IN
           /\ mem' = Writes(mem, e)
           /\ IF e + 1 = s + Half
              THEN /\ fin' = fin \cup {s}
                   /\ work' = SubSeq(work, 1, i - 1) \o SubSeq(work, i + 1, Len(work))
              ELSE /\ fin' = fin
                   /\ work' = [work EXCEPT ![i] = <<s, e + 1>>]
           /\ UNCHANGED <<n, pend>>
\* the furthest exponent anything may have written
Front == IF Mode = "loop" THEN n ELSE LET f == {s + Half - 1 : s \in fin} \cup {work[i][2] - 1 : i \in DOMAIN work} \cup {0}
                                      IN CHOOSE e \in f : \A t \in f : t <= e
Readable(b, e) == /\ e < Announced /\ Stored(b, e) /\ e + W * Len_(b) > Front
                  \* of a segment whose lookups are all still there
Stutter == n = End /\ UNCHANGED vars
Next == Square \/ Take \/ (\E i \in DOMAIN work : Step(i)) \/ Stutter
Spec == Init /\ [][Next]_vars
Exact == \A b \in B, e \in 0..End : Readable(b, e) => mem[Slot(b, e)] = e
ASSUME InRange == \A b \in B, e \in 0..End : Slot(b, e) \in 0..(Capacity - 1)
\* powers that can be live together never share a slot
ASSUME NoSharing == \A b, c \in B, e, f \in 0..End : (Stored(b, e) /\ Stored(c, f) /\ <<b, e>> # <<c, f>> /\ Slot(b, e) = Slot(c, f)) => (b = c /\ (e - f >= W * Len_(b) \/ f - e >= W * Len_(b)))
\* the real constants: sizes of the storage areas of a segment
ASSUME /\ (65536 + 9) \div 10 = 6554
       /\ \A m \in 0..6 : (262144 * 4 ^ m + 12 * 4 ^ m - 1) \div (12 * 4 ^ m) = 21846
       /\ 20 * (6554 + 7 * 21846) = 3189520
=============================================================================
