--------------------------- MODULE HwClientTrace ---------------------------
(* A session of the hardware client as its timelord and the board saw it,     *)
(* judged against the rules of HwClient: the engine is started for the        *)
(* session's form, again from the right value after a refusal, runs as long   *)
(* as the session and no longer, and what was asked for is answered once, by  *)
(* the canonical proof, when the board has passed it.                         *)
EXTENDS Canon, Integers, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANTS Interval, Skips, Target
VARIABLES l, s
vars == <<l, s>>
E == Trace[l]
Hex(n) == LET d == "0123456789abcdef" IN
          LET RECURSIVE H(_) H(m) == IF m < 16 THEN SubSeq(d, m + 1, m + 1) ELSE H(m \div 16) \o SubSeq(d, (m % 16) + 1, (m % 16) + 1) IN H(n)
Open == /\ OrderOk(E.D, E.f, E.h)
        /\ s' = [D |-> E.D, f |-> E.f, h |-> E.h, hello |-> FALSE, jobs |-> 0, run |-> FALSE, off |-> 0, at |-> 0, cur |-> 0, exact |-> 0, must |-> FALSE, done |-> FALSE,
                 skips |-> 0, ok |-> FALSE, zero |-> FALSE, term |-> FALSE, sent |-> FALSE, gone |-> FALSE, stop |-> FALSE, asked |-> <<>>]
Max(a, b) == IF a > b THEN a ELSE b
Job == LET off == Target - E.n IN
       /\ s.hello /\ ~s.run /\ ~s.stop /\ ~s.done /\ E.clk /\ E.D = s.D /\ off >= 0
       /\ IF s.jobs = 0 THEN off = 0 /\ Reduce(s.D, E.f) = Reduce(s.D, s.f)
          ELSE off % Interval = 0 /\ off <= s.cur /\ off >= s.exact /\ Reduce(s.D, E.f) = PowTwo(s.D, s.f, Hex(off), s.h)
       /\ s' = [s EXCEPT !.jobs = @ + 1, !.run = TRUE, !.off = off, !.must = FALSE, !.skips = 0]
Rep == /\ s.run /\ ~s.must /\ ~s.done
       /\ IF ~E.good THEN s' = [s EXCEPT !.must = TRUE]
          ELSE LET at == s.off + E.it IN
               /\ E.it <= Target - s.off
               /\ s' = [s EXCEPT !.at = at, !.cur = Max(@, at), !.done = (at = Target), !.skips = IF E.it = 0 \/ at = s.at THEN @ + 1 ELSE 0,
                                 !.exact = IF at % Interval = 0 THEN Max(@, at) ELSE @]
\* its clock runs for a session that goes on, and for nothing else
Clk == /\ E.on => s.hello /\ (s.run \/ ~s.done) /\ ~s.stop
       /\ s' = s
\* an engine is stopped for a reason only
Halt == /\ s.run => (s.must \/ s.done \/ s.zero \/ s.term \/ s.gone \/ s.skips > Skips)
        /\ s' = [s EXCEPT !.run = FALSE]
Ok == s.jobs > 0 /\ ~s.ok /\ ~s.stop /\ s' = [s EXCEPT !.ok = TRUE]
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Got == LET I == {i \in DOMAIN s.asked : s.asked[i].it = E.it}
           i == CHOOSE k \in I : \A j \in I : k <= j IN
         /\ I # {} /\ s.ok /\ ~s.stop /\ E.it <= s.cur
         \* whoever answers what was asked after the end has seen the end, and stopped the engine
         /\ (\A j \in I : s.asked[j].late) => ~s.run
         /\ E.size = "0000000000000064" /\ E.cnt = Len(E.lens) - 1 /\ Len(E.lens) <= 64 /\ SumIs(E.lens, Hex(E.it))
         /\ E.out = Segs(s.D, s.f, E.lens, 1, s.h, "")
         /\ s' = [s EXCEPT !.asked = Without(@, i)]
Init == l = 1 /\ s = [D |-> "0"]
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE E.k = "open" -> Open [] E.k = "job" -> Job [] E.k = "rep" -> Rep [] E.k = "halt" -> Halt [] E.k = "clk" -> Clk [] E.k = "ok" -> Ok [] E.k = "got" -> Got
             [] E.k = "hello" -> s' = [s EXCEPT !.hello = TRUE]
             [] E.k = "req" -> s' = [s EXCEPT !.asked = Append(@, [it |-> E.it, late |-> s.done])]
             [] E.k = "zero" -> s' = [s EXCEPT !.zero = TRUE]
             [] E.k = "term" -> s' = [s EXCEPT !.term = TRUE]
             [] E.k = "leave" -> s' = [s EXCEPT !.gone = TRUE]
             [] E.k = "quiet" -> (s.term \/ (E.r <= s.cur /\ \A i \in DOMAIN s.asked : s.asked[i].it > E.r)) /\ s' = s
             [] E.k = "stop" -> (s.zero \/ s.term \/ s.gone) /\ (s.stop => s.gone) /\ s' = [s EXCEPT !.stop = TRUE]
             [] E.k \in {"eof", "lost"} -> (s.stop \/ s.gone \/ s.term) /\ s' = s
             [] E.k = "end" -> ~s.run /\ (s.zero => s.stop \/ s.gone \/ s.term) /\ s' = s
             [] E.k = "client" -> s' = s                          \* the process, once told to stop: ends, and normally
             [] E.k = "exit" -> E.rc = 0 /\ E.told /\ s' = s
             [] OTHER -> FALSE               \* late, junk, a status read from an engine that is off
Spec == Init /\ [][Next]_vars
TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
                 \/ PrintT(<<"STUCK", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
