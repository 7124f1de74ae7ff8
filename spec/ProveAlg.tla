----------------------------- MODULE ProveAlg -----------------------------
(* The witness generators (sequential, pausable, two-part parallel) at the  *)
(* level of exponents: the group element x^e is represented by e.  Stored   *)
(* power number i is x^(2^(i k l)); block m of the quotient is the digit    *)
(* floor(2^k (2^(T-k(m+1)) mod B) / B).  One generator step buckets one     *)
(* block, or finishes one residue class; the environment pauses, resumes    *)
(* and stops it at any time.  Checked for every (T, k, l, B) of the bounds, *)
(* every split and every schedule of pause / resume / stop.                 *)
EXTENDS Naturals, FiniteSets

CONSTANTS Ts, Ks, Ls, Bs
VARIABLES T, k, l, B,        \* parameters of the proof
          par,               \* 1 or 2 parts
          j, i, ys, acc,     \* per part: current class, next stored power, buckets, accumulated exponent
          st,                \* "run" | "paused" | "stopped" | "done"
          proof, delivered
vars == <<T, k, l, B, par, j, i, ys, acc, st, proof, delivered>>

Digit(m) == ((2^k) * ((2^(T - k * (m + 1))) % B)) \div B
Limit == (T + k * l - 1) \div (k * l)
Quot == (2^T) \div B
Usable(ii, jj) == T >= k * (ii * l + jj + 1)
PowerAt(ii) == 2^(ii * k * l)

\* part p of P handles the classes Hi(p)-1 .. Lo(p), from the top
L0 == IF par = 1 THEN 0 ELSE l - (l \div 2)
Lo(p) == IF par = 1 THEN 0 ELSE IF p = 1 THEN l - (l \div 2) ELSE 0
Hi(p) == IF par = 1 THEN l ELSE IF p = 1 THEN l ELSE l - (l \div 2)
Parts == 1..par

Init == /\ T \in Ts /\ k \in Ks /\ l \in Ls /\ B \in Bs /\ B > 2^k
        /\ par \in {1, 2}
        /\ j = [p \in Parts |-> Hi(p)]        \* j = current class + 1
        /\ i = [p \in Parts |-> 0]
        /\ ys = [p \in Parts |-> [b \in 0..(2^k - 1) |-> 0]]
        /\ acc = [p \in Parts |-> 0]
        /\ st = "run" /\ proof = 0 /\ delivered = FALSE

RECURSIVE Sum(_, _, _)
Sum(f, lo, hi) == IF lo > hi THEN 0 ELSE f[lo] + Sum(f, lo + 1, hi)
\* the two-pass combination: high half digits and low half digits of the bucket number
K1 == k \div 2
K0 == k - K1
Row(y, b1) == Sum([b0 \in 0..(2^K0 - 1) |-> y[b1 * 2^K0 + b0]], 0, 2^K0 - 1)
Col(y, b0) == Sum([b1 \in 0..(2^K1 - 1) |-> y[b1 * 2^K0 + b0]], 0, 2^K1 - 1)
Combine(y) == Sum([b1 \in 0..(2^K1 - 1) |-> b1 * 2^K0 * Row(y, b1)], 0, 2^K1 - 1)
            + Sum([b0 \in 0..(2^K0 - 1) |-> b0 * Col(y, b0)], 0, 2^K0 - 1)

Busy(p) == j[p] > Lo(p)
Bucket(p) == /\ st = "run" /\ Busy(p) /\ i[p] < Limit
             /\ LET jj == j[p] - 1 IN
                ys' = IF Usable(i[p], jj) THEN [ys EXCEPT ![p][Digit(i[p] * l + jj)] = @ + PowerAt(i[p])] ELSE ys
             /\ i' = [i EXCEPT ![p] = @ + 1]
             /\ UNCHANGED <<T, k, l, B, par, j, acc, st, proof, delivered>>
Class(p) == /\ st = "run" /\ Busy(p) /\ i[p] = Limit
            /\ acc' = [acc EXCEPT ![p] = @ * 2^k + Combine(ys[p])]
            /\ ys' = [ys EXCEPT ![p] = [b \in 0..(2^k - 1) |-> 0]]
            /\ j' = [j EXCEPT ![p] = @ - 1] /\ i' = [i EXCEPT ![p] = 0]
            /\ UNCHANGED <<T, k, l, B, par, st, proof, delivered>>
Finish == /\ st = "run" /\ \A p \in Parts : ~Busy(p)
          /\ proof' = Sum([p \in Parts |-> acc[p] * 2^(Lo(p) * k)], 1, par)
          /\ st' = "done" /\ delivered' = TRUE
          /\ UNCHANGED <<T, k, l, B, par, j, i, ys, acc>>
Pause  == st = "run" /\ st' = "paused" /\ UNCHANGED <<T, k, l, B, par, j, i, ys, acc, proof, delivered>>
Resume == st = "paused" /\ st' = "run" /\ UNCHANGED <<T, k, l, B, par, j, i, ys, acc, proof, delivered>>
Stop   == st \in {"run", "paused"} /\ st' = "stopped" /\ UNCHANGED <<T, k, l, B, par, j, i, ys, acc, proof, delivered>>
Idle   == st \in {"done", "stopped"} /\ UNCHANGED vars

Next == (\E p \in Parts : Bucket(p) \/ Class(p)) \/ Finish \/ Pause \/ Resume \/ Stop \/ Idle
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars((\E p \in Parts : Bucket(p) \/ Class(p)) \/ Finish) /\ WF_vars(Resume)

DigitInRange == \A m \in 0..(T \div k) : (k * (m + 1) <= T) => Digit(m) < 2^k
Canonical == delivered => proof = Quot
OnlyDoneDelivers == delivered <=> st = "done"
\* nothing is read beyond the stored powers of the segment
ReadsInside == \A ii \in 0..(Limit - 1) : \A jj \in 0..(l - 1) : Usable(ii, jj) => ii * k * l < T
\* the guard drops only zero digits
DroppedAreZero == \A m \in 0..(T + k * l) : (k * (m + 1) > T /\ k * m <= T) => ((2^(T - k * m)) \div B) % (2^k) = 0
Progress == <>(st \in {"done", "stopped"} \/ st = "paused")
===========================================================================
