------------------------------ MODULE HwProof ------------------------------
(* The software side of hardware proving (hw_proof.cpp).  The board reports   *)
(* counts with values; threads fill in the values at multiples of Interval    *)
(* between two reports; requests are cut into segments whose checkpoints may  *)
(* be shared, queued in order, started when the board has passed them and a   *)
(* thread is free, and handed out when every segment of the chain is done.    *)
(* A refused value makes the board start again from the last value known.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Interval, Thres, Target, Aux, MaxP, MaxSeg, Skips,
          Reports, Asks, MaxReq, MaxBad, MaxRep, Record, FilePrefix
NONE == -1
VARIABLES off, last, cur, dev, valid, wq, slot, req, proofs, queued, done, asked, got, nreq, nbad, nrep, skips, order, hist
vars == <<off, last, cur, dev, valid, wq, slot, req, proofs, queued, done, asked, got, nreq, nbad, nrep, skips, order, hist>>
IDLE == [kind |-> "idle", from |-> 0, to |-> 0, p |-> 0]

--------------------------------------------------------------------------------
\* the queue of requests and segments, as a record [req, proofs, queued]
RECURSIVE Insert(_, _)
Insert(r, s) == IF s = <<>> \/ r < s[1] THEN <<r>> \o s ELSE <<s[1]>> \o Insert(r, Tail(s))
RECURSIVE InsertBy(_, _, _)
InsertBy(P, p, s) == IF s = <<>> \/ P[p].iters < P[s[1]].iters THEN <<p>> \o s ELSE <<s[1]>> \o InsertBy(P, p, Tail(s))
RECURSIVE SortBy(_, _)
SortBy(P, s) == IF s = <<>> THEN <<>> ELSE InsertBy(P, s[1], SortBy(P, Tail(s)))
RECURSIVE Chain(_, _)
Chain(P, p) == IF p = NONE THEN <<>> ELSE <<p>> \o Chain(P, P[p].prev)        \* last segment first
Elems(s) == {s[i] : i \in DOMAIN s}

\* let go of a queued request: one reference less along its chain, up to a segment that has started
RECURSIVE Unref(_, _)
Unref(P, p) == IF p = NONE \/ P[p].started THEN P ELSE Unref([P EXCEPT ![p].ref = @ - 1], P[p].prev)
RECURSIVE UnrefAll(_, _)
UnrefAll(P, s) == IF s = <<>> THEN P ELSE UnrefAll(Unref(P, s[1]), Tail(s))
RECURSIVE Trim(_, _)
Trim(P, del) == IF Len(P) \in del THEN Trim(SubSeq(P, 1, Len(P) - 1), del) ELSE P
Drop(S, s) == LET P == UnrefAll(S.proofs, s)
                  del == {p \in DOMAIN P : P[p].ref = 0 /\ ~P[p].dead}
                  Q == [p \in DOMAIN P |-> IF p \in del THEN [P[p] EXCEPT !.dead = TRUE, !.started = TRUE] ELSE P[p]]
                  keep(p) == p \notin del
              IN [S EXCEPT !.proofs = Trim(Q, del), !.queued = SelectSeq(S.queued, keep)]
RECURSIVE AskAll(_, _, _)
AskAll(req_, P, s) == IF s = <<>> THEN req_ ELSE AskAll(Insert(P[s[1]].iters, req_), P, Tail(s))
Queue(S, seg, prev, isReq) ==
  LET p == [iters |-> seg + (IF prev = NONE THEN 0 ELSE S.proofs[prev].iters), seg |-> seg, prev |-> prev, ref |-> 1,
            isreq |-> isReq, started |-> FALSE, fin |-> FALSE, dead |-> FALSE]
  IN [S EXCEPT !.proofs = Append(@, p), !.queued = Append(@, Len(S.proofs) + 1)]
Floor(n) == (n \div Interval) * Interval
Before(S, r) == S.queued # <<>> /\ r < S.proofs[S.queued[Len(S.queued)]].iters
ProcReq(S0) ==
  LET r == S0.req[1]
      S1 == [S0 EXCEPT !.req = Tail(@)]
      late(p) == S1.proofs[p].isreq /\ r <= S1.proofs[p].iters
      del == SelectSeq(S1.queued, late)
      S2 == IF Before(S1, r) THEN Drop([S1 EXCEPT !.req = AskAll(@, S1.proofs, del)], del) ELSE S1
      cand == {i \in DOMAIN S2.queued : LET p == S2.queued[i] IN ~S2.proofs[p].isreq /\ S2.proofs[p].iters <= r /\ Len(Chain(S2.proofs, p)) <= MaxSeg}
      base == IF cand = {} THEN NONE ELSE S2.queued[CHOOSE i \in cand : \A j \in cand : j <= i]
      up == IF base = NONE THEN {} ELSE Elems(Chain(S2.proofs, base))
      S3 == [S2 EXCEPT !.proofs = [p \in DOMAIN @ |-> IF p \in up THEN [@[p] EXCEPT !.ref = @ + 1] ELSE @[p]]]
      n == r - (IF base = NONE THEN 0 ELSE S3.proofs[base].iters)
      c34 == (n * 3) \div 4
      c1 == Floor((n * 69) \div 100)
      c2 == Floor((n * 92) \div 100 - c1)
      top(S) == Len(S.proofs)
      S4 == IF n <= Thres THEN Queue(S3, n, base, TRUE)
            ELSE IF n - c34 <= Thres
                 THEN LET A == Queue(S3, Floor(c34), base, FALSE) IN Queue(A, n - Floor(c34), top(A), TRUE)
                 ELSE LET A == Queue(S3, c1, base, FALSE)  B == Queue(A, c2, top(A), FALSE) IN Queue(B, n - c1 - c2, top(B), TRUE)
  IN [S4 EXCEPT !.queued = SortBy(S4.proofs, @)]
RECURSIVE ProcAll(_)
ProcAll(S) == IF S.req # <<>> /\ (Len(S.queued) < 3 \/ Before(S, S.req[1])) THEN ProcAll(ProcReq(S)) ELSE S

\* hand queued segments the board has passed, then waiting work, to the idle threads: a record [.., slot, wq, order]
Running(s) == Cardinality({i \in 1..Aux : s[i].kind = "proof"})
RECURSIVE Start(_, _, _)
Start(S, i, at) ==
  IF i > Aux \/ S.queued = <<>> THEN S
  ELSE LET p == S.queued[1] IN
       IF at < S.proofs[p].iters \/ 2 * Running(S.slot) >= MaxP THEN S
       ELSE IF S.slot[i].kind # "idle" THEN Start(S, i + 1, at)
       ELSE Start([S EXCEPT !.queued = Tail(@), !.proofs[p].started = TRUE, !.slot[i] = [IDLE EXCEPT !.kind = "proof", !.p = p], !.order = Append(@, p)], i + 1, at)
RECURSIVE Hand(_, _)
Hand(S, i) == IF i > Aux \/ S.wq = <<>> THEN S
              ELSE IF S.slot[i].kind # "idle" THEN Hand(S, i + 1)
              ELSE Hand([S EXCEPT !.wq = Tail(@), !.slot[i] = [IDLE EXCEPT !.kind = "work", !.from = S.wq[1][1], !.to = S.wq[1][2]]], i + 1)
Process(at, w) ==
  LET S == ProcAll([req |-> req, proofs |-> proofs, queued |-> queued, slot |-> slot, wq |-> w, order |-> order])
      T == Hand(Start(S, 1, at), 1)
  IN req' = T.req /\ proofs' = T.proofs /\ queued' = T.queued /\ slot' = T.slot /\ wq' = T.wq /\ order' = T.order

--------------------------------------------------------------------------------
Init == /\ off = 0 /\ last = 0 /\ cur = 0 /\ dev = 0 /\ valid = {0} /\ wq = <<>> /\ slot = [i \in 1..Aux |-> IDLE]
        /\ req = <<>> /\ proofs = <<>> /\ queued = <<>> /\ done = {} /\ asked = <<>> /\ got = <<>>
        /\ nreq = 0 /\ nbad = 0 /\ nrep = 0 /\ skips = 0 /\ order = <<>> /\ hist = <<>>
Log(e) == hist' = IF Record THEN Append(hist, e) ELSE <<>>
Eager == Record => \A i \in 1..Aux : slot[i].kind # "work"        \* recorded schedules: values are filled in at once
Restart == LET ps == {p \in valid : p <= cur \div Interval}  m == CHOOSE p \in ps : \A q \in ps : q <= p
           IN off' = m * Interval /\ dev' = m * Interval
Ask(r) == /\ Eager /\ nreq < MaxReq /\ nreq' = nreq + 1
          /\ req' = Insert(r, req) /\ asked' = Append(asked, r) /\ Log(<<"req", r>>)
          /\ UNCHANGED <<off, last, cur, dev, valid, wq, slot, proofs, queued, done, got, nbad, nrep, skips, order>>
Report(v) == /\ Eager /\ cur < Target /\ v > dev /\ dev' = v
             /\ IF v = last THEN skips' = skips + 1 /\ UNCHANGED <<last, cur, valid, wq, slot, req, proofs, queued, order>>   \* taken for a repetition
                ELSE /\ skips' = 0 /\ last' = v /\ cur' = v
                     /\ LET at == v % Interval = 0
                            from == Floor(last) + Interval
                            to == Floor(v) - (IF at THEN Interval ELSE 0)
                        IN /\ valid' = IF at THEN valid \cup {v \div Interval} ELSE valid
                           /\ Process(v, IF to > 0 /\ from <= to THEN Append(wq, <<from \div Interval, to \div Interval>>) ELSE wq)
             /\ Log(<<"rep", v, v - off>>)
             /\ UNCHANGED <<off, done, asked, got, nreq, nbad, nrep>>
Repeat == /\ Eager /\ cur < Target /\ nrep < MaxRep /\ nrep' = nrep + 1
          /\ IF skips + 1 > Skips THEN skips' = 0 /\ Restart ELSE skips' = skips + 1 /\ UNCHANGED <<off, dev>>
          /\ Log(<<"rpt", off'>>)
          /\ UNCHANGED <<last, cur, valid, wq, slot, req, proofs, queued, done, asked, got, nreq, nbad, order>>
Bad == /\ Eager /\ cur < Target /\ nbad < MaxBad /\ nbad' = nbad + 1 /\ skips' = 0
       /\ Restart /\ Log(<<"bad", off'>>)
       /\ UNCHANGED <<last, cur, valid, wq, slot, req, proofs, queued, done, asked, got, nreq, nrep, order>>
Work(i) == /\ slot[i].kind = "work"
           /\ LET s == slot[i] IN IF Record \/ s.from = s.to THEN valid' = valid \cup (s.from .. s.to) /\ slot' = [slot EXCEPT ![i] = IDLE]
                                  ELSE valid' = valid \cup {s.from} /\ slot' = [slot EXCEPT ![i].from = @ + 1]
           /\ UNCHANGED <<off, last, cur, dev, wq, req, proofs, queued, done, asked, got, nreq, nbad, nrep, skips, order, hist>>
Needs(p) == LET P == proofs[p] IN ((P.iters - P.seg) \div Interval) .. (P.iters \div Interval)
Prove(i) == /\ Eager /\ slot[i].kind = "proof" /\ Needs(slot[i].p) \subseteq valid
            /\ LET p == slot[i].p IN /\ proofs' = [proofs EXCEPT ![p].fin = TRUE]
                                     /\ done' = IF proofs[p].isreq THEN done \cup {p} ELSE done
                                     /\ Log(<<"fin", (CHOOSE n \in DOMAIN order : order[n] = p /\ \A m \in DOMAIN order : order[m] = p => m <= n) - 1>>)
            /\ slot' = [slot EXCEPT ![i] = IDLE]
            /\ UNCHANGED <<off, last, cur, dev, valid, wq, req, queued, asked, got, nreq, nbad, nrep, skips, order>>
Complete(p) == \A q \in Elems(Chain(proofs, p)) : proofs[q].fin
Get == LET ps == {p \in done : Complete(p)} IN
       /\ Eager /\ ps # {}
       /\ LET RECURSIVE Its(_) Its(s) == IF s = {} THEN <<>> ELSE LET p == CHOOSE p \in s : TRUE IN Insert(proofs[p].iters, Its(s \ {p}))
          IN got' = got \o Its(ps) /\ Log(<<"get", Its(ps)>>)
       /\ done' = done \ ps
       /\ UNCHANGED <<off, last, cur, dev, valid, wq, slot, req, proofs, queued, asked, nreq, nbad, nrep, skips, order>>
Tick == /\ Eager /\ cur >= Target /\ Process(last, wq) /\ Log(<<"tick">>)
        /\ <<req, proofs, queued, slot, wq, order>>' # <<req, proofs, queued, slot, wq, order>>
        /\ UNCHANGED <<off, last, cur, dev, valid, done, asked, got, nreq, nbad, nrep, skips>>
Idle == /\ cur >= Target /\ Len(got) = Len(asked) /\ nreq = MaxReq
        /\ (IF Record /\ hist # <<>> THEN JsonSerialize(FilePrefix \o ToString(TLCGet("stats").traces) \o ".json", hist) ELSE TRUE)
        /\ hist' = <<>> /\ UNCHANGED <<off, last, cur, dev, valid, wq, slot, req, proofs, queued, done, asked, got, nreq, nbad, nrep, skips, order>>
Step == (\E r \in Asks : Ask(r)) \/ (\E v \in Reports : Report(v)) \/ Repeat \/ Bad \/ (\E i \in 1..Aux : Work(i) \/ Prove(i)) \/ Get \/ Tick
Next == Step \/ Idle
Spec == Init /\ [][Next]_vars
Fair == /\ WF_vars(\E v \in Reports : Report(v)) /\ WF_vars(\E i \in 1..Aux : Work(i)) /\ WF_vars(\E i \in 1..Aux : Prove(i)) /\ WF_vars(Get) /\ WF_vars(Tick)
FairSpec == Spec /\ Fair

--------------------------------------------------------------------------------
Live == {p \in DOMAIN proofs : ~proofs[p].dead}
\* segments that are queued, running or waiting to be handed out: their chains are intact and run from zero without a gap
Wanted == Elems(queued) \cup {slot[i].p : i \in {j \in 1..Aux : slot[j].kind = "proof"}} \cup done
RECURSIVE Intact(_)
Intact(p) == /\ p \in DOMAIN proofs /\ ~proofs[p].dead
             /\ IF proofs[p].prev = NONE THEN proofs[p].iters = proofs[p].seg
                ELSE /\ Intact(proofs[p].prev)
                     /\ LET q == proofs[proofs[p].prev] IN proofs[p].iters = q.iters + proofs[p].seg /\ q.iters % Interval = 0 /\ ~q.isreq
Contiguous == \A p \in Wanted : Intact(p) /\ Len(Chain(proofs, p)) <= 64
\* what is referenced is counted, and nothing counted is released
Refs == \A p \in Live : proofs[p].started \/ proofs[p].ref = Cardinality({q \in Elems(queued) : proofs[q].isreq /\ p \in Elems(Chain(proofs, q))})
\* no value is missing: every multiple of Interval up to the last report is known or will be filled in
Pending == UNION ({(wq[i][1]) .. (wq[i][2]) : i \in DOMAIN wq} \cup {(slot[i].from) .. (slot[i].to) : i \in {j \in 1..Aux : slot[j].kind = "work"}})
NoHoles == \A p \in 0 .. (last \div Interval) : p \in valid \cup Pending
\* only what the board has passed is used
Passed == \A i \in 1..Aux : slot[i].kind = "proof" => \A p \in Needs(slot[i].p) : p \in valid \cup Pending
Count(s, r) == Cardinality({i \in DOMAIN s : s[i] = r})
AtMostOnce == \A r \in Elems(got) : Count(got, r) <= Count(asked, r)
\* every request is somewhere: waiting, queued, running or finished, or handed out -- exactly once
Kept == \A r \in Asks : Count(asked, r) = Count(req, r) + Count(got, r) + Cardinality({p \in Wanted : proofs[p].isreq /\ proofs[p].iters = r})
ResumeGood == off % Interval = 0 /\ (off \div Interval) \in valid
Answered == <>[](cur >= Target => Len(got) = Len(asked))
Ends == <>(cur >= Target)
=============================================================================
