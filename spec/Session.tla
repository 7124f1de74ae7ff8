------------------------------ MODULE Session ------------------------------
(* A session of the client: the session thread reads messages, the squaring  *)
(* loop advances, one proving thread per accepted request waits for the loop,*)
(* proves, and writes its frame in two parts under the socket lock.  The     *)
(* timelord asks, stops, sends garbage, shuts its stream or drops the        *)
(* connection whenever it likes.  Mode "S" accepts one request; "T" at most  *)
(* Cap at a time, dropping the largest for a smaller one; "N" every request. *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS Mode, Bounds, MaxReq, Cap, End, Record
VARIABLES
  phase,     \* "ready", "run", "joining", "stopword", "ack", "ended"
  inbox,     \* messages on their way to the client: a request, 0 stop, -1 garbage, -2 end of stream
  asked,     \* number of requests made
  peer,      \* "open", "done" (asked for the end), "half", "gone"
  n,         \* loop position
  loop,      \* the loop runs
  th,        \* proving threads: sequence of [it, pc]; pc "wait", "prove", "lock", "part1", "part2", "sent", "dropped"
  flag,      \* stop flags: set of thread numbers, 0 is the session's
  lock,      \* holder of the socket lock (0 nobody)
  wire,      \* what was written: <<thread, part>>, <<0, "OK">>, <<0, "STOP">>
  stopacked, sched
vars == <<phase, inbox, asked, peer, n, loop, th, flag, lock, wire, stopacked, sched>>
Written == {wire[j] : j \in DOMAIN wire}
Note(c) == sched' = IF Record THEN Append(sched, c) ELSE sched
Init == /\ phase = "ready" /\ inbox = <<>> /\ asked = 0 /\ peer = "open" /\ n = 0 /\ loop = FALSE /\ th = <<>>
        /\ flag = {} /\ lock = 0 /\ wire = <<>> /\ stopacked = FALSE /\ sched = <<>>
\* ---- the timelord
Ask(b) == /\ peer = "open" /\ asked < MaxReq /\ <<0, "OK">> \in Written
          /\ inbox' = Append(inbox, b) /\ asked' = asked + 1 /\ Note(<<"ask", b>>)
          /\ UNCHANGED <<phase, peer, n, loop, th, flag, lock, wire, stopacked>>
Finish(w) == /\ peer = "open" /\ <<0, "OK">> \in Written
             /\ inbox' = Append(inbox, CASE w = "stop" -> 0 [] w = "bad" -> -1 [] OTHER -> -2)
             /\ peer' = CASE w \in {"stop", "bad"} -> "done" [] w = "half" -> "half" [] OTHER -> "gone"
             /\ Note(<<w>>) /\ UNCHANGED <<phase, asked, n, loop, th, flag, lock, wire, stopacked>>
\* after having asked for the end the timelord may still vanish, or acknowledges the stop word
Vanish == /\ peer \in {"done", "half"} /\ peer' = "gone" /\ Note(<<"vanish">>)
          /\ UNCHANGED <<phase, inbox, asked, n, loop, th, flag, lock, wire, stopacked>>
Acknowledge == /\ peer \in {"done", "half"} /\ phase = "ack" /\ ~stopacked /\ stopacked' = TRUE
               /\ UNCHANGED <<phase, inbox, asked, peer, n, loop, th, flag, lock, wire, sched>>
\* ---- the session thread
Begin == /\ phase = "ready" /\ phase' = "run" /\ loop' = (Mode # "S") /\ wire' = Append(wire, <<0, "OK">>)
         /\ UNCHANGED <<inbox, asked, peer, n, th, flag, lock, stopacked, sched>>
Active == {k \in DOMAIN th : k \notin flag}
Accept(b) ==
  CASE Mode = "S" -> Len(th) = 0
    [] Mode = "N" -> TRUE
    [] Mode = "T" -> /\ \A k \in Active : th[k].it # b
                     /\ Len(th) < Cap \/ \A k \in Active : b < th[k].it
Largest == IF Active = {} THEN {} ELSE {CHOOSE k \in Active : \A j \in Active : th[j].it <= th[k].it}
Read == /\ phase = "run" /\ inbox # <<>> /\ inbox' = Tail(inbox)
        /\ LET m == Head(inbox)
           IN IF m <= 0
              THEN phase' = "joining" /\ flag' = {0} \cup DOMAIN th /\ UNCHANGED <<th, loop>>
              ELSE /\ UNCHANGED phase
                   /\ IF Accept(m) THEN /\ th' = Append(th, [it |-> m, pc |-> "wait"]) /\ loop' = TRUE
                                        /\ flag' = IF Mode = "T" /\ Len(th) >= Cap THEN flag \cup Largest ELSE flag
                      ELSE UNCHANGED <<th, loop, flag>>
        /\ UNCHANGED <<asked, peer, n, lock, wire, stopacked, sched>>
Over(k) == th[k].pc \in {"sent", "dropped"}
Joined == /\ phase = "joining" /\ ~loop /\ \A k \in DOMAIN th : Over(k)
          /\ phase' = "stopword" /\ UNCHANGED <<inbox, asked, peer, n, loop, th, flag, lock, wire, stopacked, sched>>
StopWord == /\ phase = "stopword" /\ lock = 0
            /\ IF peer = "gone" THEN \E w \in {wire, Append(wire, <<0, "STOP">>)} : wire' = w ELSE wire' = Append(wire, <<0, "STOP">>)
            /\ phase' = "ack" /\ UNCHANGED <<inbox, asked, peer, n, loop, th, flag, lock, stopacked, sched>>
Leave == /\ phase = "ack" /\ (stopacked \/ peer \in {"gone", "half"}) /\ phase' = "ended"
         /\ UNCHANGED <<inbox, asked, peer, n, loop, th, flag, lock, wire, stopacked, sched>>
\* ---- the squaring loop
Target == IF Mode = "S" THEN (IF th = <<>> THEN 0 ELSE th[1].it) ELSE End
Square == /\ loop /\ 0 \notin flag /\ n < Target /\ n' = n + 1
          /\ UNCHANGED <<phase, inbox, asked, peer, loop, th, flag, lock, wire, stopacked, sched>>
LoopEnds == /\ loop /\ (0 \in flag \/ (Mode = "S" /\ n = Target /\ th # <<>>)) /\ loop' = FALSE
            /\ UNCHANGED <<phase, inbox, asked, peer, n, th, flag, lock, wire, stopacked, sched>>
\* ---- proving threads
Go(k, pc) == th' = [th EXCEPT ![k].pc = pc]
Drop(k) == /\ k \in flag /\ th[k].pc \in {"wait", "prove"} /\ Go(k, "dropped")
           /\ UNCHANGED <<phase, inbox, asked, peer, n, loop, flag, lock, wire, stopacked, sched>>
Prove(k) == /\ th[k].pc = "wait" /\ n >= th[k].it /\ k \notin flag /\ Go(k, "prove")
            /\ UNCHANGED <<phase, inbox, asked, peer, n, loop, flag, lock, wire, stopacked, sched>>
Proved(k) == /\ th[k].pc = "prove" /\ k \notin flag /\ Go(k, "lock")
             /\ UNCHANGED <<phase, inbox, asked, peer, n, loop, flag, lock, wire, stopacked, sched>>
Lock(k) == /\ th[k].pc = "lock" /\ lock = 0 /\ lock' = k /\ Go(k, "part1")
           /\ UNCHANGED <<phase, inbox, asked, peer, n, loop, flag, wire, stopacked, sched>>
Part(k, from, to) == /\ th[k].pc = from /\ lock = k
                     /\ \/ peer # "gone" /\ wire' = Append(wire, <<k, from>>) /\ Go(k, to) /\ lock' = (IF to = "sent" THEN 0 ELSE k)
                        \/ peer = "gone" /\ wire' = wire /\ Go(k, "dropped") /\ lock' = 0            \* the write fails
                     /\ Note(IF to = "sent" /\ peer # "gone" THEN <<"sent", th[k].it>> ELSE <<"-">>)
                     /\ UNCHANGED <<phase, inbox, asked, peer, n, loop, flag, stopacked>>
Thread(k) == Drop(k) \/ Prove(k) \/ Proved(k) \/ Lock(k) \/ Part(k, "part1", "part2") \/ Part(k, "part2", "sent")
Idle == phase = "ended" /\ UNCHANGED vars
Client == Begin \/ Read \/ Joined \/ StopWord \/ Leave \/ Square \/ LoopEnds \/ \E k \in DOMAIN th : Thread(k)
Timelord == (\E b \in Bounds : Ask(b)) \/ (\E w \in {"stop", "bad", "half", "close", "reset"} : Finish(w)) \/ Vanish \/ Acknowledge
Next == Client \/ Timelord \/ Idle
Fair == /\ WF_vars(Begin) /\ WF_vars(Read) /\ WF_vars(Joined) /\ WF_vars(StopWord) /\ WF_vars(Leave) /\ WF_vars(Square) /\ WF_vars(LoopEnds)
        /\ \A k \in 1..MaxReq : WF_vars(k \in DOMAIN th /\ Thread(k)) /\ SF_vars(k \in DOMAIN th /\ Lock(k))
        /\ WF_vars(Acknowledge)
Spec == Init /\ [][Next]_vars /\ Fair
\* ---- properties
Whole == \A j \in DOMAIN wire : wire[j][2] = "part1" =>
           \/ j = Len(wire)
           \/ wire[j + 1] = <<wire[j][1], "part2">>
           \/ peer = "gone"
Last == \A j \in DOMAIN wire : wire[j][2] = "STOP" => j = Len(wire) /\ phase \in {"ack", "ended"} /\ ~loop /\ \A k \in DOMAIN th : Over(k)
Once == \A j, m \in DOMAIN wire : (wire[j] = wire[m]) => j = m
Passed == \A k \in DOMAIN th : th[k].pc \in {"lock", "part1", "part2", "sent"} => n >= th[k].it
Quiet == phase = "ended" => ~loop /\ \A k \in DOMAIN th : Over(k)
Ends == (peer # "open") ~> (phase = "ended")
Must == {k \in DOMAIN th : k \notin flag}
Answered == \A k \in 1..MaxReq : (k \in DOMAIN th) ~> (k \in DOMAIN th /\ (th[k].pc = "sent" \/ k \in flag))
Stops == (peer \in {"done", "half"}) ~> (<<0, "STOP">> \in Written \/ peer = "gone")
Emit == (phase = "ended" /\ Record) => PrintT(ToJson(sched))
=============================================================================
