------------------------------ MODULE TwoStore ------------------------------
(* 2-Wesolowski mode: one storage whose stride grows from S1 to S2 at the    *)
(* first checkpoint at or after Switch, and requests that look powers up     *)
(* while the loop goes on.  Scaled constants; the real ones are checked by   *)
(* the assumptions at the end.                                               *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS S1, S2, Switch, Max, Slack, Step, Batch, Big
ASSUME S2 % S1 = 0 /\ Switch % S1 = 0
Capacity == Switch \div S1 + (Max - Switch) \div S2
Down(v) == v - (v % S2)
VARIABLES n, cp, sw, mem, pub, loop
vars == <<n, cp, sw, mem, pub, loop>>
Pos(p, s) == IF s = -1 \/ p < s THEN p \div S1 ELSE s \div S1 + (p - s) \div S2
Kept(p, s) == p % (IF s = -1 \/ p < s THEN S1 ELSE S2) = 0
\* deliveries a+1..b while the switch point is s
Write(m, a, b, s) == [q \in DOMAIN m |-> IF \E p \in (a + 1)..b : Kept(p, s) /\ Pos(p, s) = q
                                         THEN CHOOSE p \in (a + 1)..b : Kept(p, s) /\ Pos(p, s) = q /\ \A r \in (p + 1)..b : ~(Kept(r, s) /\ Pos(r, s) = q) ELSE m[q]]
Init == /\ n = 0 /\ cp = 0 /\ sw = -1 /\ pub = 0 /\ loop = "run"
        /\ mem = [q \in 0..(Capacity - 1) |-> IF q = 0 THEN 0 ELSE -1]
Run(k) == LET m == n + k
              atcp == m >= cp
              turn == atcp /\ m >= Switch /\ sw = -1
              up == IF turn THEN m + ((S2 - (m % S2)) % S2) ELSE m
          IN /\ loop = "run"
             /\ n' = up
             /\ mem' = Write(mem, n, up, sw)
             /\ sw' = IF turn THEN up ELSE sw
             /\ pub' = IF atcp THEN up ELSE pub
             /\ cp' = IF atcp THEN cp + Step ELSE cp
             /\ loop' = IF atcp /\ up >= Max - Slack THEN "end" ELSE "run"
             \* no delivery leaves the storage
             /\ Assert(\A p \in (n + 1)..up : Kept(p, sw) => Pos(p, sw) < Capacity, "write outside the storage")
Stop == loop = "run" /\ loop' = "end" /\ UNCHANGED <<n, cp, sw, mem, pub>>
Done == loop = "end" /\ UNCHANGED vars
Next == (\E k \in 1..Batch : Run(k)) \/ Stop \/ Done
Spec == Init /\ [][Next]_vars
\* the segments of a request
I1(r) == Down((r * 2) \div 3)
Segments(r) == LET a == I1(r) b == I1(r - a) IN <<<<0, a>>, <<a, b>>, <<a + b, r - a - b>>>>
Stride(len) == IF len < Big THEN S1 ELSE S2
\* powers looked up when a segment is proved: starts of the blocks that the segment contains, and its end
Needs(r, i) == LET s == Segments(r)[i] st == Stride(s[2])
               IN {s[1] + j * st : j \in 0..((s[2] + st - 1) \div st - 1)} \cup {IF i < 3 THEN s[1] + s[2] ELSE Down(r)}
Found(p) == Pos(p, sw) < Capacity /\ mem[Pos(p, sw)] = p
R == 1..(Max - Slack - 1)
\* every power that some request looks up, with the smallest published count at which it may
All == UNION {UNION {{<<p, Segments(r)[i][1] + Segments(r)[i][2]>> : p \in Needs(r, i)} : i \in 1..3} : r \in R}
Powers == {q[1] : q \in All}
From == [p \in Powers |-> LET e == {q[2] : q \in {t \in All : t[1] = p}} IN CHOOSE v \in e : \A w \in e : v <= w]
Exact == \A p \in Powers : From[p] <= pub => Found(p)
OnlyKept == sw # -1 => \A p \in Powers : Kept(p, sw)
Ordered == \A q \in 0..(Capacity - 2) : mem[q + 1] # -1 => mem[q] < mem[q + 1]
\* the real constants: from 91000000 on, all three segments are at least 10000000 long, so only multiples of 100 are looked up;
\* the switch happens before 91000000 + 32768 + 10000 + 100, and the loop ends before 799500000 + 32768 + 10000
ASSUME LET D100(v) == v - (v % 100)  A(r) == D100((r * 2) \div 3)  Least(r) == r - A(r) - D100(((r - A(r)) * 2) \div 3)
       IN \A r \in 91000000..91000300 : Least(r) >= 10000000 /\ D100(((r - A(r)) * 2) \div 3) >= 10000000
ASSUME (91042868 \div 10) + (799542768 - 91042868) \div 100 < 91000000 \div 10 + (800000000 - 91000000) \div 100
=============================================================================
