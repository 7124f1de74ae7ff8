---------------------------- MODULE DeviceTrace ----------------------------
(* The board as the driver sees it: registers behind a serial bus, engines, *)
(* clock generator, voltage regulator.  The trace holds the driver's calls  *)
(* (call .. ret) with every bus transfer between; the specification keeps   *)
(* the registers and explains each transfer and each result.                *)
EXTENDS Registers, Json, IOUtils, Integers, TLC, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,
          mem,      \* word address -> word (8 hex digits)
          call,     \* the call in progress
          old,      \* mem when the call began
          wrote,    \* words written by it
          starts,   \* engines started by it: <<engine, registers at that moment>>
          divs,     \* the clock's control words and engine controls in force when a divider was written
          vid       \* the regulator's registers: number -> byte
vars == <<l, mem, call, old, wrote, starts, divs, vid>>

None == [c |-> "-"]
E == Trace[l]
Size == <<4, 16, 32, 64, 128, 256>>          \* lengths a frame can announce, by code 0..5
Word(m, a) == IF a \in DOMAIN m THEN m[a] ELSE "00000000"
WInt(m, a) == BOfBE(Word(m, a))
RECURSIVE Bytes(_, _, _)
Bytes(m, a, n) == IF n = 0 THEN "" ELSE HCat(Word(m, a), Bytes(m, a + 4, n - 1))       \* n words from a
Num(m, a, words, digits) == Dec(ImageOf(Bytes(m, a, words)), digits)
\* mem with the bytes of h stored from a
Store(m, a, h) == LET n == HLen(h) \div 4 IN
                  [x \in DOMAIN m \cup {a + 4 * i : i \in 0..(n - 1)} |-> IF a <= x /\ x < a + 4 * n THEN HSub(h, x - a, 4) ELSE m[x]]

\* ---------------------------------------------------------------- addresses
Engines == 0..2
Control(i) == 1048576 + 65536 * i            \* 100000h: bit 0 clock, bit 4 reset
Job(i) == Control(i) + 4096
Status(i) == Control(i) + 8192
Start(i) == Job(i) + 4 * 97                  \* id 1, iterations 2, a 21, f 21, d 41, l 11, start
ClockOn(m, i) == BBit(WInt(m, Control(i)), 0) = 1
InReset(m, i) == BBit(WInt(m, Control(i)), 4) = 1
PllControl == 0  PreDivide == 4  Feedback == 8  PostDivide == 16  Filter == 20

\* ---------------------------------------------------------------- transfers
Code(b) == Size[(b % 8) + 1]
Transfer ==
  /\ E.k = "spi" /\ call # None
  /\ LET b == HByte(E.w, 0)
         a == 4 * BToInt(BOfBE(HSub(E.w, 1, 3)))
         write == b >= 128
     IN /\ (b % 8) < 6
        /\ IF write
           THEN /\ (b \div 32) % 4 = 0 /\ (b \div 8) % 4 = 0
                /\ HLen(E.w) = 4 + Code(b)
                /\ mem' = Store(mem, a, HSub(E.w, 4, Code(b)))
                /\ wrote' = wrote \cup {a + 4 * i : i \in 0..((Code(b) \div 4) - 1)}
                /\ LET new == {i \in Engines : Start(i) \in {a + 4 * j : j \in 0..((Code(b) \div 4) - 1)} /\ BBit(WInt(mem', Start(i)), 0) = 1}
                   IN starts' = starts \o [j \in 1..Cardinality(new) |-> [e |-> CHOOSE i \in new : Cardinality({x \in new : x < i}) = j - 1, at |-> mem']]
                /\ divs' = IF {PreDivide, Feedback, PostDivide, Filter} \cap {a + 4 * i : i \in 0..((Code(b) \div 4) - 1)} # {}
                           THEN divs \cup {[pll |-> WInt(mem, PllControl), on |-> {i \in Engines : ClockOn(mem, i)}]} ELSE divs
           ELSE /\ (b \div 32) % 4 = 3
                /\ HLen(E.w) = 4 /\ HLen(E.r) = 4 + Code(b)
                /\ HSub(E.r, 4, Code(b)) = Bytes(mem, a, Code(b) \div 4)         \* what the board answered
                /\ UNCHANGED <<mem, wrote, starts, divs>>
  /\ UNCHANGED <<call, old, vid>>

I2c == /\ E.k = "i2c" /\ call # None
       /\ vid' = IF E.rd = 0 /\ E.a = 56 /\ HLen(E.w) = 2 THEN [x \in DOMAIN vid \cup {HByte(E.w, 0)} |-> IF x = HByte(E.w, 0) THEN HByte(E.w, 1) ELSE vid[x]] ELSE vid
       /\ UNCHANGED <<mem, call, old, wrote, starts, divs>>
Gpio == E.k = "gpio" /\ call # None /\ UNCHANGED <<mem, call, old, wrote, starts, divs, vid>>

Call == /\ E.k = "call" /\ call = None /\ call' = [c |-> "call", e |-> E, vid |-> vid]
        /\ old' = mem /\ wrote' = {} /\ starts' = << >> /\ divs' = {} /\ UNCHANGED <<mem, vid>>

\* ---------------------------------------------------------------- results
Window(i) == {x \in wrote : Control(i) <= x /\ x < Control(i) + 65536}
OnlyEngine(i) == wrote = Window(i)
JobDone(a, r) ==
  LET i == a.idx IN
  /\ r.rc = 0 /\ r.kept
  /\ OnlyEngine(i) /\ ClockOn(mem, i) /\ ~InReset(mem, i)
  /\ \A x \in wrote : x = Control(i) \/ (Job(i) <= x /\ x < Job(i) + 512)       \* frames are padded beyond the start register
  /\ Len(starts) = 1 /\ starts[1].e = i
  /\ LET at == starts[1].at IN
     /\ ClockOn(at, i) /\ ~InReset(at, i)
     /\ \A j \in 0..97 : Word(at, Job(i) + 4 * j) = Word(mem, Job(i) + 4 * j) /\ (Job(i) + 4 * j) \in wrote
     /\ BAdd(WInt(at, Job(i) + 4), BShl(WInt(at, Job(i) + 8), 32)) = a.n
     /\ Num(at, Job(i) + 12, 21, 34) = a.a
     /\ Num(at, Job(i) + 96, 21, 34) = a.b
     /\ Num(at, Job(i) + 180, 41, 68) = a.d
     /\ Num(at, Job(i) + 344, 11, 18) = BIsqrt(BIsqrt(BNeg(a.d)))
     /\ WInt(at, Start(i)) = "1"
StopDone(a, r) == OnlyEngine(a.idx) /\ ~ClockOn(mem, a.idx) /\ InReset(mem, a.idx) /\ starts = << >> /\ wrote = {Control(a.idx)}
Value(m, i) == [it |-> BAdd(WInt(m, Status(i) + 4), BShl(WInt(m, Status(i) + 8), 32)), a |-> Num(m, Status(i) + 12, 21, 34), f |-> Num(m, Status(i) + 96, 21, 34)]
StatusDone(a, r) ==
  /\ r.rc = 0 /\ wrote = {}
  /\ \A i \in Engines : LET v == r.vals[i + 1] IN
       IF (a.mask \div (2 ^ i)) % 2 = 1 THEN v = Value(mem, i)
       ELSE v = [it |-> BInt(7 + i), a |-> BInt((-5) - i), f |-> BInt(50 + i)]       \* as they were

\* the clock: 200 MHz * (feedback + 1) / ((pre + 1) * (post + 1)), compared in units of 1e-6 MHz
Milli == "bebc200"                               \* 200 MHz = 200000000
FNum(m) == BMul(Milli, BAdd(WInt(m, Feedback), "1"))
FDen(m) == BMul(BAdd(WInt(m, PreDivide), "1"), BAdd(WInt(m, PostDivide), "1"))
\* filter range: the number of bounds (in units of 0.1 MHz) not above 100 MHz / (pre + 1)
Bounds == {75, 110, 180, 300, 500, 800, 1300, 2000}
FilterOk(m) == LET p == BToInt(WInt(m, PreDivide)) + 1 IN WInt(m, Filter) = BInt(Cardinality({b \in Bounds : 1000 >= b * p}))
Dividers == {PreDivide, Feedback, PostDivide, Filter}
\* dividers are only written with the generator in reset, and taken over afterwards
Programmed == /\ Dividers \subseteq wrote /\ \A d \in divs : BBit(d.pll, 0) = 1
              /\ WInt(mem, PllControl) = "0" /\ FilterOk(mem)
Near == "fc328"                                    \* 1.033: available frequencies lie at least this close
Million == "f4240"
FreqDone(a, r) ==
  IF r.rc = 1
  THEN /\ Programmed
       /\ BLe(BMul(BSub(a.uhz, "1"), FDen(mem)), FNum(mem))                                                      \* not below the request
       /\ \/ BLe(BMul(FNum(mem), Million), BMul(BMul(BAdd(a.uhz, "1"), FDen(mem)), Near))                       \* nor far above
          \/ BLe(FNum(mem), BMul("11e1a30", FDen(mem)))                                                         \* the lowest: 18.75 MHz
       /\ r.fidx >= 0
  ELSE /\ Dividers \cap wrote = {}
       /\ BLt("b2d05e00", a.uhz)              \* above 3000 MHz
AdjustDone(a, r) ==
  LET masked == {i \in Engines : (a.mask \div (2 ^ i)) % 2 = 1} IN
  /\ Programmed
  /\ \A i \in Engines : IF i \in masked THEN ClockOn(mem, i) /\ ~InReset(mem, i) ELSE Word(mem, Control(i)) = Word(old, Control(i))
  /\ \A d \in divs : d.on \cap masked = {}
  /\ starts = << >> /\ r.fidx = a.fidx + a.dir
  /\ LET n == FNum(mem) d == FDen(mem) n0 == FNum(old) d0 == FDen(old)
         up == BMul(n, d0) down == BMul(n0, d)
     IN IF a.dir > 0 THEN BLe(down, up) /\ BLe(BMul(up, Million), BMul(down, Near)) ELSE BLe(up, down) /\ BLe(BMul(down, Million), BMul(up, Near))
GetFreqDone(a, r) ==
  /\ wrote = {}
  /\ LET c == WInt(mem, PllControl) IN
     IF BBit(c, 1) = 1 \/ BBit(c, 3) = 1 THEN r.uhz = "5f5e100"
     ELSE IF BBit(c, 0) = 1 THEN r.uhz = "0"
     ELSE BLe(BAbs(BSub(BMul(r.uhz, FDen(mem)), FNum(mem))), FDen(mem))
\* regulator: 0.24375 V + 0.00625 V per step, steps 29h..79h; a voltage is given in units of 1e-5 V
Vid(m) == m[7]
VoltDone(a, r) ==
  LET step == (a.v5 - 24375) \div 625 IN
  IF r.rc = 0 THEN /\ 7 \in DOMAIN vid /\ vid[7] \in 41..121
                   /\ vid[7] \in {step, (a.v5 - 24376) \div 625}              \* the rounding of the decimal voltage
              ELSE /\ vid = call.vid /\ ~(step \in 41..121 /\ ((a.v5 - 24376) \div 625) \in 41..121)
GetVoltDone(a, r) == IF 7 \in DOMAIN vid THEN r.v5 = BInt(24375 + 625 * vid[7]) ELSE TRUE

\* temperature of a code, in units of 1e-15 C
RECURSIVE BPow(_, _)
BPow(c, k) == IF k = 0 THEN "1" ELSE BMul(c, BPow(c, k - 1))
Temp(c) == LET p(k) == BPow(c, k) IN BAdd(BAdd(BAdd(BMul(BOfDec("-8929"), p(4)), BMul(BOfDec("65714000"), p(3))), BAdd(BMul(BOfDec("-180020000000"), p(2)), BMul(BOfDec("330610000000000"), p(1)))), BOfDec("-60926700000000000"))
AlarmDone(a, r) ==
  LET reg == IF a.kind = "x" THEN 65536 + 36 ELSE 65536 + 40
      c == WInt(mem, reg)
  IN IF r.rc = 1 THEN /\ wrote = {reg} /\ BLe(c, "3ff")
                      /\ BLe(BAbs(BSub(Temp(c), BMul(BInt(a.mc), BOfDec("1000000000000")))), BOfDec("1000000000000000"))      \* within a degree
     ELSE wrote = {} /\ ~a.legal

\* register images in memory
EncDone(a, r) == r.clean /\ r.len = a.size /\ r.after = a.v /\ Dec(ImageOf(r.img), a.n) = a.v
DecDone(a, r) == r.len = a.size /\ r.v = Dec(ImageOf(a.h), a.n)
DeserDone(a, r) == LET u(o, w) == ImageOf(HSub(a.h, 4 * o, 4 * w)) IN r.id = u(0, 1) /\ r.it = u(1, 2) /\ r.a = Dec(u(3, 21), 34) /\ r.f = Dec(u(24, 21), 34)

Explained(a, r) ==
  CASE a.c = "job" -> JobDone(a, r) [] a.c = "stop" -> StopDone(a, r) [] a.c = "status" -> StatusDone(a, r)
    [] a.c = "freq" -> FreqDone(a, r) [] a.c = "adjust" -> AdjustDone(a, r) [] a.c = "getfreq" -> GetFreqDone(a, r)
    [] a.c = "volt" -> VoltDone(a, r) [] a.c = "getvolt" -> GetVoltDone(a, r) [] a.c = "alarm" -> AlarmDone(a, r)
    [] a.c = "enc" -> EncDone(a, r) [] a.c = "dec" -> DecDone(a, r) [] a.c = "deser" -> DeserDone(a, r)
Ret == /\ E.k = "ret" /\ call # None /\ Explained(call.e, E)
       /\ call' = None /\ UNCHANGED <<mem, old, wrote, starts, divs, vid>>
\* the board changes its registers
Board == E.k = "mem" /\ call = None /\ mem' = Store(mem, E.a, E.h) /\ UNCHANGED <<call, old, wrote, starts, divs, vid>>
\* start of a new board
Fresh == E.k = "fresh" /\ call = None /\ mem' = [x \in {} |-> ""] /\ vid' = [x \in {} |-> 0] /\ UNCHANGED <<call, old, wrote, starts, divs>>

Init == l = 1 /\ mem = [x \in {} |-> ""] /\ call = None /\ old = mem /\ wrote = {} /\ starts = << >> /\ divs = {} /\ vid = [x \in {} |-> 0]
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Transfer \/ I2c \/ Gpio \/ Call \/ Ret \/ Board \/ Fresh)
Spec == Init /\ [][Next]_vars
TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
                 \/ PrintT(<<"STUCK", TLCGet("stats").diameter>>) /\ FALSE
============================================================================
