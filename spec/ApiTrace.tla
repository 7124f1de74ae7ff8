----------------------------- MODULE ApiTrace -----------------------------
(* Trace validation of recorded calls of the group / encoding / verifier    *)
(* layer: every line of the trace is one completed call with its arguments  *)
(* and its result; it is accepted iff the specification explains the result.*)
EXTENDS Weso, Json, IOUtils, Sequences

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == l

FormOut(e) == <<e.a, e.b>>          \* as returned (possibly unreduced); e.c tells that c is consistent
SameElement(D, f, g) == IsForm(D, f) /\ Reduce(D, f) = g
Verdict(b) == IF b THEN "1" ELSE "0"
\* "reject" covers both ways the code may refuse: returning false and throwing
Refused(r) == r \in {"0", "reject"}

OrderOk(D, f, h) == Pow(D, f, h) = Identity(D)
PowTwo(D, f, T, h) == IF h = "0" THEN SquareN(D, f, BToInt(T))
                      ELSE IF OrderOk(D, f, h) THEN Pow(D, f, BPowMod("2", T, h)) ELSE <<"0", "0">>
Witness(D, f, T, h, B) == IF h = "0" THEN Pow(D, f, BDiv(BShl("1", BToInt(T)), B))
                          ELSE Pow(D, f, BDiv(BPowMod("2", T, BMul(h, B)), B))

Explains(e) ==
  CASE e.op = "compose" -> e.c /\ SameElement(e.D, FormOut(e), Compose(e.D, e.f, e.g))
    [] e.op = "square"  -> e.c /\ SameElement(e.D, FormOut(e), Compose(e.D, e.f, e.f))
    [] e.op = "squaren" -> e.c /\ FormOut(e) = SquareN(e.D, e.f, e.n)
    [] e.op = "pow"     -> e.c /\ FormOut(e) = Pow(e.D, e.f, e.e)
    [] e.op = "reduce"  -> e.c /\ FormOut(e) = Reduce(e.D, e.f)
    [] e.op = "isred"   -> (e.out = "1") <=> IsReducedForm(e.D, e.f)
    [] e.op = "ser"     -> e.out = Encode(e.D, e.f)
    [] e.op = "deser"   -> e.out = Decode(e.D, e.h, e.strict)
    [] e.op = "cofactor" -> Cofactor(e.a, e.b) = SpecCofactor(e.a, e.b)
    [] e.op = "pair"    -> e.out = DecodePair(e.D, e.h, e.bits, e.strict)
    [] e.op = "prime"   -> (e.out = "1") <=> BProbPrime(e.n)
    [] e.op = "primes"  -> {e.out[i] : i \in DOMAIN e.out} = {n \in e.lo..e.hi : BProbPrime(BInt(n))}
    [] e.op = "hashprime" -> e.out = HashPrime(e.seed, e.bits, {e.mask[i] : i \in DOMAIN e.mask})
    [] e.op = "disc"    -> IF ValidDiscArgs(e.seed, e.bits) THEN e.out = CreateDiscriminant(e.seed, e.bits) ELSE e.out = "reject"
    [] e.op = "getb"    -> e.out = GetB(e.D, e.f, e.g)
    [] e.op = "verify1" -> IF Verify1(e.D, e.x, e.y, e.p, e.iters) THEN e.out = "1" ELSE Refused(e.out)
    [] e.op = "verifyn" -> IF VerifyN(e.D, e.x, e.blob, e.iters, e.bits, e.depth) THEN e.out = "1" ELSE Refused(e.out)
    [] e.op = "discverifyn" ->
         IF ValidDiscArgs(e.seed, e.bits) /\ VerifyN(CreateDiscriminant(e.seed, e.bits), e.x, e.blob, e.iters, e.bits, e.depth)
         THEN e.out = "1" ELSE Refused(e.out)
    [] e.op = "verifyb" -> LET v == VerifyB(e.D, e.B, e.x, e.blob, e.iters, e.depth) IN
                           IF v[1] THEN e.out = "1" /\ e.y = v[2] ELSE Refused(e.out)
    [] e.op = "getbproof" -> e.out = GetBFromProof(e.D, e.x, e.blob, e.iters, e.depth)
    \* a one-call proof: y = x^(2^T), pi = x^floor(2^T/B), in canonical bytes; when a multiple h of the
    \* order of x is supplied the exponents are taken modulo h (floor(2^T/B) mod h = (2^T mod hB) div B)
    [] e.op = "prove"   -> LET y == PowTwo(e.D, e.f, e.T, e.h)
                           IN e.out = HCat(Encode(e.D, y), Encode(e.D, Witness(e.D, e.f, e.T, e.h, GetB(e.D, Reduce(e.D, e.f), y))))
    \* the same through a binding: seed, size, encoded input
    [] e.op = "oneprove" ->
         IF ~ValidDiscArgs(e.seed, e.bits) THEN e.out = "reject"
         ELSE LET D == CreateDiscriminant(e.seed, e.bits)
                  f == Decode(D, e.x, FALSE)
              IN IF f = Reject THEN e.out = "reject"
                 ELSE LET y == PowTwo(D, f, e.T, "0")
                      IN e.out = HCat(Encode(D, y), Encode(D, Witness(D, f, e.T, "0", GetB(D, f, y))))
    \* one segment proved by any of the generators from the stored powers
    [] e.op = "segment" -> e.c /\ LET y == PowTwo(e.D, e.f, e.T, e.h)
                                  IN Reduce(e.D, FormOut(e)) = Witness(e.D, e.f, e.T, e.h, GetB(e.D, e.f, y))
    [] OTHER -> FALSE

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Explains(Trace[l])
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
                 \/ PrintT(<<"STUCK", TLCGet("stats").diameter>>) /\ FALSE
===========================================================================
