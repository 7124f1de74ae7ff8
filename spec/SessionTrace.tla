---------------------------- MODULE SessionTrace ----------------------------
(* Recorded sessions between a timelord and the client, byte for byte.       *)
(* A record holds everything the timelord sent (inp, hexadecimal), what the  *)
(* client sent (out: kind, payload, number of timelord bytes sent by then),  *)
(* how the connection ended (closed: "" not by the timelord, "half" its      *)
(* stream only, "close" / "reset"; half: it had ended its stream before),    *)
(* whether every answer was awaited                                          *)
(* (waited), and the exit status of the client process (-999: still running  *)
(* at the time limit; negative: killed by a signal).                         *)
EXTENDS Canon, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
MaxTwo == "2fa766e0"        \* 2-Wesolowski mode supports counts below 8 * 10^8 - 500000
MaxActive == 100
Has(h, at, n) == HLen(h) >= at + n
Digit(h, i) == HByte(h, i) \in 48..57
Digits(h, at, n) == \A i \in at..(at + n - 1) : Digit(h, i)
RECURSIVE Dec(_, _, _, _)
Dec(h, at, n, acc) == IF n = 0 THEN acc ELSE Dec(h, at + 1, n - 1, BAdd(BMul(acc, "a"), BInt(HByte(h, at) - 48)))
\* ---- the first messages: type, discriminant, form
Refuse == [st |-> "refused", at |-> 0]
Free == [st |-> "free", at |-> 0]
Short == [st |-> "short", at |-> 0]
\* bytes that no numeral has
Alien(b) == ~(b \in 48..57 \/ b \in 65..70 \/ b \in 97..102 \/ b \in {32, 9, 10, 11, 12, 13, 45, 43, 88, 120, 0})
DiscOf(h, at, n) ==
  IF \E i \in at..(at + n - 1) : Alien(HByte(h, i)) THEN "refused"
  ELSE IF n > 0 /\ Digits(h, at, n) THEN "refused"                            \* not negative
  ELSE IF n > 1 /\ HByte(h, at) = 45 /\ Digits(h, at + 1, n - 1) /\ HByte(h, at + 1) # 48 THEN BNeg(Dec(h, at + 1, n - 1, "0"))
  ELSE "free"
ParseInit(h) ==
  IF ~Has(h, 0, 1) THEN Short
  ELSE IF HByte(h, 0) \notin {78, 83, 84} THEN [st |-> "type", at |-> 1]
  ELSE IF ~Has(h, 1, 3) THEN Short
  ELSE IF ~Digits(h, 1, 3) THEN Free
  ELSE LET n == BToInt(Dec(h, 1, 3, "0"))
       IN IF n = 0 \/ n >= 350 THEN Refuse
          ELSE IF ~Has(h, 4, n + 1) THEN Short
          ELSE LET d == DiscOf(h, 4, n)  k == HByte(h, 4 + n)  at == 5 + n
               IN IF k = 0 \/ k > FormSize THEN Refuse
                  ELSE IF ~Has(h, at, k) THEN Short
                  ELSE IF d = "refused" THEN Refuse
                  ELSE IF d = "free" THEN Free
                  ELSE IF BBits(d) > MaxDBits THEN Refuse
                  ELSE IF ~(BMod(d, "8") = "1" /\ BProbPrime(BNeg(d))) THEN Free
                  ELSE LET f == Decode(d, HCat(HSub(h, at, k), HZeros(FormSize - k)), FALSE)
                       IN IF f = Reject THEN Refuse ELSE [st |-> "go", at |-> at + k, mode |-> HByte(h, 0), D |-> d, f |-> f]
\* ---- iteration messages: <<requests <<value, end>>, how it goes on, position>>
RECURSIVE Iters(_, _, _)
Iters(h, at, acc) ==
  IF ~Has(h, at, 2) THEN <<acc, "eof", at>>
  ELSE IF ~Digits(h, at, 2) THEN <<acc, "bad", at + 2>>
  ELSE LET n == BToInt(Dec(h, at, 2, "0"))
       IN IF n = 0 THEN <<acc, "stop", at + 2>>
          ELSE IF n > 20 THEN <<acc, "bad", at + 2>>
          ELSE IF ~Has(h, at + 2, n) THEN <<acc, "eof", at>>
          ELSE IF ~Digits(h, at + 2, n) THEN <<acc, "bad", at + 2 + n>>
          ELSE LET v == Dec(h, at + 2, n, "0")
               IN IF BBits(v) > 64 THEN <<acc, "bad", at + 2 + n>>
                  ELSE IF v = "0" THEN <<acc, "stop", at + 2 + n>>
                  ELSE Iters(h, at + 2 + n, Append(acc, <<v, at + 2 + n>>))
\* ---- which requests are accepted: <<requests that must be answered, requests that may be>>
MinOf(S) == CHOOSE q \in S : \A r \in S : BLe(q[1], r[1])
MaxOf(S) == CHOOSE q \in S : \A r \in S : BLe(r[1], q[1])
RECURSIVE Two(_, _, _, _, _)
Two(rs, i, n, act, gone) ==
  IF i > Len(rs) THEN <<act, gone>>
  ELSE LET q == rs[i]
       IN IF (\E r \in act : r[1] = q[1]) \/ BLe(MaxTwo, q[1]) THEN Two(rs, i + 1, n, act, gone)
          ELSE IF n < MaxActive THEN Two(rs, i + 1, n + 1, act \cup {q}, gone)
          ELSE IF act = {} \/ BLt(q[1], MinOf(act)[1])
               THEN LET m == IF act = {} THEN {} ELSE {MaxOf(act)} IN Two(rs, i + 1, n + 1, (act \ m) \cup {q}, gone \cup m)
               ELSE Two(rs, i + 1, n, act, gone)
Accepted(mode, rs) == CASE mode = 83 -> <<IF rs = <<>> THEN {} ELSE {rs[1]}, {}>>
                        [] mode = 78 -> <<{rs[i] : i \in DOMAIN rs}, {}>>
                        [] mode = 84 -> Two(rs, 1, 0, {}, {})
\* ---- a proof message
SegLens(p, k) == LET RECURSIVE G(_, _) G(i, acc) == IF i = 0 THEN acc ELSE G(i - 1, <<BOfBE(HSub(p, FormSize + (i - 1) * SegLen, 8))>> \o acc) IN G(k, <<>>)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Sum(s) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN "0" ELSE BAdd(s[i], S(i - 1)) IN S(Len(s))
\* the iteration count, or "bad"
ProofOf(i, m, h) ==
  IF HLen(m) < 17 + 2 * FormSize THEN "bad"
  ELSE LET v == BOfBE(HSub(m, 0, 8))
           w == HByte(m, 16 + FormSize)
           p == HSub(m, 17 + FormSize, HLen(m) - 17 - FormSize)
       IN IF BOfBE(HSub(m, 8, 8)) # BInt(FormSize) \/ HLen(p) # FormSize + w * SegLen THEN "bad"
          ELSE IF (i.mode = 83 /\ w # 0) \/ (i.mode = 84 /\ w # 2) \/ w > 63 THEN "bad"
          ELSE LET cs == Rev(SegLens(p, w))  rest == BSub(v, Sum(cs))
               IN IF BSign(rest) < 0 THEN "bad"
                  ELSE IF h # ""
                       THEN IF HCat(HSub(m, 16, FormSize), p) = Segs(i.D, i.f, Append(cs, rest), 1, h, "") THEN v ELSE "bad"
                       ELSE IF VerifyN(i.D, Encode(i.D, i.f), HCat(HSub(m, 16, FormSize), p), v, BBits(i.D), BInt(w)) THEN v ELSE "bad"
\* ---- a session
Kinds(o) == [j \in DOMAIN o |-> o[j][1]]
Refused(r) == Kinds(r.out) \in {<<>>, <<"stop">>}
Running(r, i) ==
  LET it == Iters(r.inp, i.at, <<>>)
      acc == Accepted(i.mode, it[1])
      ks == Kinds(r.out)
      ms == {j \in DOMAIN ks : ks[j] = "msg"}
      val == [j \in ms |-> ProofOf(i, r.out[j][2], r.h)]
      over == it[2] \in {"stop", "bad"} \/ r.half
      whole == r.closed \in {"", "half"}              \* the timelord read everything
  IN /\ (ks = <<>> /\ ~whole) \/ (Len(ks) >= 1 /\ ks[1] = "ok" /\ r.out[1][3] >= i.at)
     /\ \A j \in DOMAIN ks : j > 1 => ks[j] \in {"msg", "stop"}
     /\ \A j \in DOMAIN ks : ks[j] = "stop" => j = Len(ks) /\ over /\ (it[2] = "eof" \/ r.out[j][3] >= it[3])
     /\ (over /\ whole) => ks[Len(ks)] = "stop"
     \* each proof answers its own request, after it was made
     /\ \A j \in ms : val[j] # "bad"
     /\ \A v \in {val[j] : j \in ms} :
          LET qs == {q \in acc[1] \cup acc[2] : q[1] = v} js == {j \in ms : val[j] = v}
          IN /\ Cardinality(js) <= Cardinality(qs)
             /\ \A j \in js : Cardinality({g \in js : g <= j}) <= Cardinality({q \in qs : q[2] <= r.out[j][3]})
     /\ r.waited => \A q \in acc[1] : Cardinality({j \in ms : val[j] = q[1]}) >= Cardinality({p \in acc[1] : p[1] = q[1]})
Explains(r) ==
  /\ r.rc \in {0, 1} /\ \A j \in DOMAIN r.out : r.out[j][1] # "odd"
  /\ LET i == ParseInit(r.inp)
     IN CASE i.st = "short" -> Refused(r)
          [] i.st = "type" -> r.out = <<>>
          [] i.st = "refused" -> Refused(r)
          [] i.st = "free" -> \A j \in DOMAIN r.out : r.out[j][1] \in {"ok", "msg", "stop"}
          [] i.st = "go" -> r.rc = 0 /\ Running(r, i) /\ (r.h # "" => OrderOk(i.D, i.f, r.h))
Init == l = 1
Next == l <= Len(Trace) /\ Explains(E) /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
                 \/ PrintT(<<"STUCK", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
