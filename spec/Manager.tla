------------------------------ MODULE Manager ------------------------------
(* The manager of n-Wesolowski mode.  Time is counted in units of the        *)
(* shortest segment.  Segments <<start, length>> of lengths 1, 4, 16, ...    *)
(* become provable when the squaring loop has passed them; at most N provers *)
(* run, the shorter and then the earlier segments first.  A request <<b, r>> *)
(* asks for b units (r = 1: and a bit more, proved separately); it is put    *)
(* together from proved segments, longest first, of at most MaxParts parts,  *)
(* when a short segment has been proved; failing that it tries again later.  *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS Lengths,     \* number of segment lengths
          N, End, Bounds, MaxParts,
          Record       \* keep the schedule
VARIABLES n, run, idle, done, maxp, open, wait, ans, sched
vars == <<n, run, idle, done, maxp, open, wait, ans, sched>>
Pow4[i \in Nat] == IF i = 0 THEN 1 ELSE 4 * Pow4[i - 1]
LenOf == {Pow4[i] : i \in 0..(Lengths - 1)}
Better(s, t) == s[2] < t[2] \/ (s[2] = t[2] /\ s[1] < t[1])
Best(S) == {s \in S : Cardinality({t \in S : Better(t, s)}) < N}
NewAt(m) == {<<m - k, k>> : k \in {j \in LenOf : m % j = 0}}
\* the furthest point that proved segments reach from 0, longest lengths first, and the parts used; stays at or below top
RECURSIVE Reach(_, _, _, _, _)
Reach(d, i, at, parts, top) ==
  IF i < 0 THEN <<at, parts>>
  ELSE LET k == Pow4[i]
       IN IF at % k = 0 /\ <<at, k>> \in d /\ at + k <= top /\ parts < MaxParts THEN Reach(d, i, at + k, parts + 1, top)
          ELSE Reach(d, i - 1, at, parts, top)
Collect(d, b) == Reach(d, Lengths - 1, 0, 0, b)[1] = b
Note(c) == sched' = IF Record THEN Append(sched, c) ELSE sched
Init == n = 0 /\ run = {} /\ idle = {} /\ done = {} /\ maxp = 0 /\ open = {} /\ wait = {} /\ ans = {} /\ sched = <<>>
Spread(S) == run' = Best(S) /\ idle' = S \ Best(S)
\* requests that the manager wakes: those that fit are answered, the others try again later
Serve(d, m, op) == LET w == {q \in op : q[1] <= m /\ q[1] <= n} ok == {q \in w : Collect(d, q[1])}
                   IN ans' = ans \cup ok /\ wait' = wait \cup (w \ ok) /\ open' = op \ w
Advance == /\ n < End /\ n' = n + 1 /\ Spread(run \cup idle \cup NewAt(n + 1))
           /\ LET w == {q \in open : q[1] <= maxp /\ q[1] <= n + 1} ok == {q \in w : Collect(done, q[1])}
              IN ans' = ans \cup ok /\ wait' = wait \cup (w \ ok) /\ open' = open \ w
           /\ Note(<<"A", n + 1>>) /\ UNCHANGED <<done, maxp>>
Finish(s) == /\ s \in run
             /\ LET d == done \cup {s}
                    smalls == {t[1] + 1 : t \in {u \in d : u[2] = 1}}
                    least == {q[1] : q \in open \cup wait}
                    fits == s[2] = 1 /\ least # {} /\ \E e \in smalls, b \in least : e >= b
                    m == IF fits THEN Reach(d, Lengths - 1, 0, 0, End)[1] ELSE maxp
                IN done' = d /\ maxp' = m /\ (IF fits THEN Serve(d, m, open) ELSE UNCHANGED <<ans, wait, open>>)
             /\ Spread((run \cup idle) \ {s})
             /\ Note(<<"F", s[1], s[2]>>) /\ UNCHANGED n
Ask(q) == /\ q \notin open \cup wait \cup ans
          /\ \E u \in 0..(End - 1) : <<u, 1>> \notin done          \* squaring goes on
          /\ IF q[1] <= maxp /\ q[1] <= n
             THEN IF Collect(done, q[1]) THEN ans' = ans \cup {q} /\ UNCHANGED <<open, wait>> ELSE wait' = wait \cup {q} /\ UNCHANGED <<ans, open>>
             ELSE open' = open \cup {q} /\ UNCHANGED <<ans, wait>>
          /\ Note(<<"Q", q[1], q[2]>>) /\ UNCHANGED <<n, run, idle, done, maxp>>
Tick == /\ wait # {}
        /\ LET ok == {q \in wait : Collect(done, q[1])}
           IN ans' = ans \cup ok /\ wait' = wait \ ok
        /\ Note(<<"T">>) /\ UNCHANGED <<n, run, idle, done, maxp, open>>
\* squaring goes on beyond the horizon: one more short segment is proved
Later == /\ n = End /\ run = {} /\ open # {}
         /\ LET m == Reach(done, Lengths - 1, 0, 0, End)[1] IN maxp' = m /\ Serve(done, m, open)
         /\ UNCHANGED <<n, run, idle, done, sched>>
Reqs == Bounds \X {0, 1} \ {<<0, 0>>}
Done == ~Record /\ n = End /\ run = {} /\ UNCHANGED vars
Next == Advance \/ (\E s \in run : Finish(s)) \/ (\E q \in Reqs : Ask(q)) \/ Tick \/ Later \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Advance) /\ WF_vars(\E s \in run : Finish(s)) /\ WF_vars(Tick) /\ WF_vars(Later)
\* ---- properties
Limit == Cardinality(run) <= N
First == \A s \in run, t \in idle : Better(s, t)
Busy == idle # {} => Cardinality(run) = N
Sound == \A q \in ans : Collect(done, q[1])
All == \A s \in run \cup idle \cup done : s[1] + s[2] <= n
Everything == n = End /\ run = {} => \A k \in LenOf : \A j \in 0..(End \div k - 1) : <<j * k, k>> \in done
Answered == \A q \in Reqs : (q \in open \cup wait) ~> (q \in ans)
Emit == (n = End /\ run = {} /\ Record) => PrintT(ToJson(sched))
View == <<n, run, idle, done, maxp, open, wait, ans>>
=============================================================================
