------------------------------ MODULE HwTrace ------------------------------
(* What the hardware prover's software did, judged against the rules of       *)
(* HwProof: which reports are taken, where squaring resumes after a refusal,  *)
(* and that each request is answered once, by a chain of proofs from zero to  *)
(* the count asked for which is exactly the canonical one.                    *)
EXTENDS Canon, Integers, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANTS Interval, Skips
VARIABLES l, g, off, last, best, skips, asked
vars == <<l, g, off, last, best, skips, asked>>
E == Trace[l]
\* a count with coefficients a, b that may be used: a form of the discriminant, not beyond what was to be computed
Good(D, a, b) == LET n == BSub(BMul(b, b), D) IN BSign(a) > 0 /\ BMod(n, BMul("4", a)) = "0"
Hex(n) == LET d == "0123456789abcdef" IN
          LET RECURSIVE H(_) H(m) == IF m < 16 THEN SubSeq(d, m + 1, m + 1) ELSE H(m \div 16) \o SubSeq(d, (m % 16) + 1, (m % 16) + 1) IN H(n)
\* best: multiples of Interval reported so far (as a set of counts)
Known(c) == LET s == {p \in best : p <= c} IN CHOOSE p \in s : \A q \in s : q <= p
Keep == UNCHANGED <<g, off, last, best, skips, asked>>
Start == /\ g' = [D |-> E.D, f |-> E.f, h |-> E.h, target |-> E.target] /\ OrderOk(E.D, E.f, E.h)
         /\ E.target = ((E.T + Interval - 1) \div Interval) * Interval /\ Reduce(E.D, E.f) = Reduce(E.D, E.out)
         /\ off' = 0 /\ last' = 0 /\ best' = {0} /\ skips' = 0 /\ asked' = <<>>
\* the board is started again: from a multiple of Interval not beyond what it had reached, with the value of that count
Again == /\ E.pos % Interval = 0 /\ E.pos >= Known(last) /\ E.pos <= last
         /\ (E.quiet => E.pos = (last \div Interval) * Interval)
         /\ E.left = g.target - E.pos
         /\ Reduce(g.D, E.out) = PowTwo(g.D, g.f, Hex(E.pos), g.h) /\ off' = E.pos
Refuse == E.rc = -1 /\ skips' = 0 /\ Again /\ UNCHANGED <<g, last, best, asked>>
Add == LET at == off + E.it IN
       IF E.it = 0 \/ at = last
       THEN IF skips >= Skips THEN Refuse ELSE /\ E.rc = 1 /\ skips' = skips + 1 /\ UNCHANGED <<g, off, last, best, asked>>
       ELSE IF at > g.target \/ ~Good(g.D, E.a, E.b) THEN Refuse
       ELSE /\ E.rc = 0 /\ skips' = 0 /\ last' = at /\ best' = (IF at % Interval = 0 THEN best \cup {at} ELSE best) /\ UNCHANGED <<g, off, asked>>
\* a run of right values, each one later than the one before
Adds == /\ E.n = Len(E.its) /\ E.rc = 0 /\ \A i \in DOMAIN E.its : E.its[i] > 0 /\ (i = 1 => off + E.its[1] # last) /\ (i > 1 => E.its[i] > E.its[i - 1])
        /\ off + E.its[Len(E.its)] <= g.target
        /\ last' = off + E.its[Len(E.its)] /\ skips' = 0
        /\ best' = best \cup {off + E.its[i] : i \in {j \in DOMAIN E.its : (off + E.its[j]) % Interval = 0}}
        /\ UNCHANGED <<g, off, asked>>
Ask == asked' = Append(asked, E.it) /\ UNCHANGED <<g, off, last, best, skips>>
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Got == \E i \in DOMAIN asked :
         /\ asked[i] = E.it /\ asked' = Without(asked, i)
         /\ E.it <= g.target /\ Len(E.lens) >= 1 /\ Len(E.lens) <= 64 /\ SumIs(E.lens, Hex(E.it))
         /\ E.out = Segs(g.D, g.f, E.lens, 1, g.h, "")
         /\ UNCHANGED <<g, off, last, best, skips>>
\* everything is idle: each request within reach has been answered
Quiet == (\A i \in DOMAIN asked : asked[i] > last) /\ Keep
Stop == asked' = <<>> /\ UNCHANGED <<g, off, last, best, skips>>
Init == l = 1 /\ g = [D |-> "0"] /\ off = 0 /\ last = 0 /\ best = {0} /\ skips = 0 /\ asked = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE E.k = "start" -> Start [] E.k = "add" -> Add [] E.k = "adds" -> Adds [] E.k = "req" -> Ask
             [] E.k = "got" -> Got [] E.k = "quiet" -> Quiet [] E.k = "stop" -> Stop
Spec == Init /\ [][Next]_vars
TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
                 \/ PrintT(<<"STUCK", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
