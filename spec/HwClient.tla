----------------------------- MODULE HwClient -----------------------------
(* The hardware client's event loop (hw_vdf_client.cpp): several timelord     *)
(* connections, each with an engine of the board, served in turn by one       *)
(* thread.  What a timelord sends arrives in pieces.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Conns, Target, Reports, Asks, Interval, MaxReq, MaxBad, MaxSess, MaxDown, Record, FilePrefix
VARIABLES st, tl, inb, eng, asked, ready, out, nsess, nreq, nbad, ndown, up, term, hist
vars == <<st, tl, inb, eng, asked, ready, out, nsess, nreq, nbad, ndown, up, term, hist>>
OFF == [on |-> FALSE, off |-> 0, at |-> 0, done |-> FALSE]
Init == /\ st = [i \in Conns |-> "closed"] /\ tl = [i \in Conns |-> "none"] /\ inb = [i \in Conns |-> <<>>]
        /\ eng = [i \in Conns |-> OFF] /\ asked = [i \in Conns |-> <<>>] /\ ready = [i \in Conns |-> <<>>] /\ out = [i \in Conns |-> <<>>]
        /\ nsess = [i \in Conns |-> 0] /\ nreq = 0 /\ nbad = 0 /\ ndown = 0 /\ up = TRUE /\ term = FALSE /\ hist = <<>>
Log(e) == hist' = IF Record THEN Append(hist, e) ELSE <<>>
\* every message consists of two pieces: the first leaves it incomplete
Msg(m) == <<[m |-> m, last |-> FALSE], [m |-> m, last |-> TRUE]>>
Half(i) == tl[i] \in {"hello/", "req/", "zero/"}

--------------------------------------------------------------------------------
\* the timelords
Hello(i) == /\ tl[i] = "fresh" /\ inb' = [inb EXCEPT ![i] = Append(@, Msg("hello")[1])] /\ tl' = [tl EXCEPT ![i] = "hello/"] /\ Log(<<"hello", i>>)
            /\ UNCHANGED <<st, eng, asked, ready, out, nsess, nreq, nbad, ndown, up, term>>
Ask(i, r) == /\ tl[i] = "open" /\ nreq < MaxReq /\ nreq' = nreq + 1
             /\ inb' = [inb EXCEPT ![i] = Append(@, [m |-> "req", r |-> r, last |-> FALSE])] /\ tl' = [tl EXCEPT ![i] = "req/"] /\ Log(<<"req", i, r>>)
             /\ UNCHANGED <<st, eng, asked, ready, out, nsess, nbad, ndown, up, term>>
Zero(i) == /\ tl[i] = "open" /\ inb' = [inb EXCEPT ![i] = Append(@, Msg("zero")[1])] /\ tl' = [tl EXCEPT ![i] = "zero/"] /\ Log(<<"zero", i>>)
           /\ UNCHANGED <<st, eng, asked, ready, out, nsess, nreq, nbad, ndown, up, term>>
Rest(i) == /\ Half(i) /\ LET p == inb[i] IN
              \* (the first piece may have been read already: what is kept of it is in inb, too)
              inb' = [inb EXCEPT ![i] = Append(@, [p[Len(p)] EXCEPT !.last = TRUE])]
           /\ tl' = [tl EXCEPT ![i] = IF @ = "hello/" THEN "helloed" ELSE IF @ = "req/" THEN "open" ELSE "zeroed"] /\ Log(<<"rest", i>>)
           /\ UNCHANGED <<st, eng, asked, ready, out, nsess, nreq, nbad, ndown, up, term>>
\* reads the OK
Open(i) == /\ tl[i] = "helloed" /\ out[i] # <<>> /\ tl' = [tl EXCEPT ![i] = "open"]
           /\ UNCHANGED <<st, inb, eng, asked, ready, out, nsess, nreq, nbad, ndown, up, term, hist>>
Leave(i) == /\ tl[i] \in {"fresh", "hello/", "open", "req/", "helloed"} /\ nsess[i] < MaxSess /\ tl' = [tl EXCEPT ![i] = "gone"] /\ Log(<<"leave", i>>)
            /\ UNCHANGED <<st, inb, eng, asked, ready, out, nsess, nreq, nbad, ndown, up, term>>
Down == /\ up /\ ndown < MaxDown /\ up' = FALSE /\ ndown' = ndown + 1 /\ Log(<<"down">>) /\ UNCHANGED <<st, tl, inb, eng, asked, ready, out, nsess, nreq, nbad, term>>
Up == /\ ~up /\ up' = TRUE /\ Log(<<"up">>) /\ UNCHANGED <<st, tl, inb, eng, asked, ready, out, nsess, nreq, nbad, ndown, term>>
Term == /\ ~term /\ (\A i \in Conns : nsess[i] = MaxSess) /\ term' = TRUE /\ Log(<<"term">>) /\ UNCHANGED <<st, tl, inb, eng, asked, ready, out, nsess, nreq, nbad, ndown, up>>

--------------------------------------------------------------------------------
\* the client
RECURSIVE Take(_)          \* [done: complete messages in order, left: what stays]
Take(s) == IF \E k \in DOMAIN s : s[k].last
           THEN LET k == CHOOSE k \in DOMAIN s : s[k].last /\ \A j \in 1..(k - 1) : ~s[j].last
                    t == Take(SubSeq(s, k + 1, Len(s)))
                IN [done |-> <<s[k]>> \o t.done, left |-> t.left]
           ELSE [done |-> <<>>, left |-> s]
Connect(i) == /\ st[i] = "closed" /\ tl[i] = "none" /\ up /\ ~term /\ nsess[i] < MaxSess
              /\ st' = [st EXCEPT ![i] = "waiting"] /\ tl' = [tl EXCEPT ![i] = "fresh"] /\ nsess' = [nsess EXCEPT ![i] = @ + 1]
              /\ inb' = [inb EXCEPT ![i] = <<>>] /\ out' = [out EXCEPT ![i] = <<>>]
              /\ UNCHANGED <<eng, asked, ready, nreq, nbad, ndown, up, term, hist>>
Stopped(i, o) == /\ out' = [out EXCEPT ![i] = o \o <<<<"STOP">>>>] /\ eng' = [eng EXCEPT ![i] = OFF] /\ st' = [st EXCEPT ![i] = "closed"]
                 /\ asked' = [asked EXCEPT ![i] = <<>>] /\ ready' = [ready EXCEPT ![i] = <<>>] /\ inb' = [inb EXCEPT ![i] = <<>>]
                 /\ tl' = [tl EXCEPT ![i] = "none"]                \* (the timelord reads all there is and closes)
Handle(i) ==
  LET t == Take(inb[i])
      zero == {k \in DOMAIN t.done : t.done[k].m = "zero"}
      o == out[i] \o ready[i]
      isreq(m) == m.m = "req"
      rs == SelectSeq(t.done, isreq)
  IN /\ st[i] # "closed"
     /\ IF term \/ (zero # {} /\ st[i] # "waiting") THEN Stopped(i, IF st[i] = "waiting" THEN out[i] ELSE o)
        ELSE IF tl[i] = "gone" /\ (t.done = <<>> \/ st[i] = "waiting") THEN Stopped(i, o)
        ELSE IF st[i] = "waiting"
        THEN /\ t.done # <<>> /\ eng' = [eng EXCEPT ![i] = [OFF EXCEPT !.on = TRUE]] /\ out' = [out EXCEPT ![i] = <<<<"OK">>>>] /\ st' = [st EXCEPT ![i] = "running"]
             /\ inb' = [inb EXCEPT ![i] = t.left] /\ UNCHANGED <<asked, ready, tl>>
        ELSE /\ (t.done # <<>> \/ ready[i] # <<>>)
             /\ out' = [out EXCEPT ![i] = o] /\ ready' = [ready EXCEPT ![i] = <<>>] /\ inb' = [inb EXCEPT ![i] = t.left]
             /\ asked' = [asked EXCEPT ![i] = @ \o [k \in DOMAIN rs |-> rs[k].r]] /\ UNCHANGED <<st, eng, tl>>
     /\ UNCHANGED <<nsess, nreq, nbad, ndown, up, term, hist>>
Status(i, v) == /\ st[i] = "running" /\ v > eng[i].at /\ v <= Target
                /\ eng' = [eng EXCEPT ![i].at = v, ![i].on = (v < Target), ![i].done = (v = Target)]
                /\ st' = [st EXCEPT ![i] = IF v = Target THEN "idling" ELSE @] /\ Log(<<"report", i, v>>)
                /\ UNCHANGED <<tl, inb, asked, ready, out, nsess, nreq, nbad, ndown, up, term>>
Bad(i) == /\ st[i] = "running" /\ nbad < MaxBad /\ nbad' = nbad + 1
          /\ eng' = [eng EXCEPT ![i].off = (eng[i].at \div Interval) * Interval, ![i].at = (eng[i].at \div Interval) * Interval] /\ Log(<<"bad", i>>)
          /\ UNCHANGED <<st, tl, inb, asked, ready, out, nsess, nreq, ndown, up, term>>
Prove(i) == \E k \in DOMAIN asked[i] :
              /\ asked[i][k] <= eng[i].at /\ ready' = [ready EXCEPT ![i] = Append(@, <<"proof", asked[i][k]>>)]
              /\ asked' = [asked EXCEPT ![i] = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
              /\ UNCHANGED <<st, tl, inb, eng, out, nsess, nreq, nbad, ndown, up, term, hist>>
Over == term /\ \A i \in Conns : st[i] = "closed"
Idle == /\ Over /\ (IF Record /\ hist # <<>> THEN JsonSerialize(FilePrefix \o ToString(TLCGet("stats").traces) \o ".json", hist) ELSE TRUE)
        /\ hist' = <<>> /\ UNCHANGED <<st, tl, inb, eng, asked, ready, out, nsess, nreq, nbad, ndown, up, term>>
Client == \E i \in Conns : Connect(i) \/ Handle(i) \/ (\E v \in Reports : Status(i, v)) \/ Bad(i) \/ Prove(i)
World == (\E i \in Conns : Hello(i) \/ (\E r \in Asks : Ask(i, r)) \/ Zero(i) \/ Rest(i) \/ Open(i) \/ Leave(i)) \/ Down \/ Up \/ Term
Next == Client \/ World \/ Idle
Spec == Init /\ [][Next]_vars
Fair == /\ \A i \in Conns : /\ WF_vars(Connect(i)) /\ WF_vars(Handle(i)) /\ WF_vars(\E v \in Reports : Status(i, v)) /\ WF_vars(Prove(i))
                            /\ WF_vars(Rest(i)) /\ WF_vars(Open(i)) /\ WF_vars(Hello(i))
        /\ WF_vars(Up)
FairSpec == Spec /\ Fair

--------------------------------------------------------------------------------
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
\* an engine runs for a session that has been accepted and has not ended, and only then
Engines == \A i \in Conns : eng[i].on <=> st[i] = "running"
\* OK first, STOP last, and nothing answered that the board had not passed
Order == \A i \in Conns : LET o == out[i] IN o # <<>> => (o[1][1] = "OK" \/ o = <<<<"STOP">>>>) /\ \A k \in DOMAIN o : (o[k][1] = "OK" => k = 1) /\ (o[k][1] = "STOP" => k = Len(o))
\* what has been read is kept: a message that is complete is handled once
Served == [](\A i \in Conns : st[i] = "closed" => asked[i] = <<>> /\ ready[i] = <<>>)
Resume == \A i \in Conns : eng[i].off % Interval = 0 /\ eng[i].off <= Target
Stops == \A i \in Conns : (tl[i] = "zeroed") ~> (st[i] = "closed")
Ends == term ~> Over
Answered == \A i \in Conns : \A r \in Asks : (Count(asked[i], r) > 0) ~> (Count(asked[i], r) = 0)
Starts == \A i \in Conns : (st[i] = "closed" /\ ~term /\ nsess[i] < MaxSess) ~> (st[i] = "waiting" \/ term)
=============================================================================
