------------------------------- MODULE Bqfc -------------------------------
(* The 100-byte compressed encoding of a reduced form.                      *)
(* layout: flags(1) | gsize(1) | a' | t' | g | b0 | zero padding;           *)
(* integers little endian; t comes from the Euclidean sequence of (a, |b|)  *)
(* stopped at sqrt(a) (PartialGcd); a' = a/g, t' = t/g, g = gcd(a,t); b0 = |b| div a'.   *)
EXTENDS ClassGroupFast, PartialGcd, TLC

FormSize == 100
MaxDBits == 1024
Round32(n) == ((n + 31) \div 32) * 32

CofactorT(a, b) == Cofactor(a, BAbs(b))

ByteLen(n) == (BBits(n) + 7) \div 8
Max2(x, y) == IF x > y THEN x ELSE y

Compress(a, b) ==
  IF a = b THEN [a |-> a, t |-> "0", g |-> "0", b0 |-> "0", neg |-> FALSE]
  ELSE LET t0 == CofactorT(a, b)
           g  == BGcd(a, t0)
           a1 == BDiv(a, g)
       IN [a |-> a1, t |-> BDiv(t0, g), g |-> g,
           b0 |-> IF g = "1" THEN "0" ELSE BDiv(BAbs(b), a1),
           neg |-> BSign(b) < 0]

\* Encoding of the pair (a,b); "" when a field does not fit
EncodeWith(a, b, dbits) ==
  IF b = "1" /\ BLe(a, "2")
  THEN HCat(IF a = "2" THEN "08" ELSE "04", HZeros(FormSize - 1))
  ELSE LET c   == Compress(a, b)
           d   == Round32(dbits)
           gs  == Max2(ByteLen(c.g), 1) - 1
           la  == d \div 16 - gs
           lt  == d \div 32 - gs
           flags == (IF c.neg THEN 1 ELSE 0) + (IF BSign(c.t) < 0 THEN 2 ELSE 0)
           fits == /\ la >= 0 /\ lt >= 0
                   /\ Max2(ByteLen(c.a), 1) <= la /\ Max2(ByteLen(c.t), 1) <= lt
                   /\ Max2(ByteLen(c.b0), 1) <= gs + 1
       IN IF ~fits THEN ""
          ELSE LET body == HCat(HCat(HCat(HOfByte(flags), HOfByte(gs)), HCat(BToLE(c.a, la), BToLE(BAbs(c.t), lt))),
                                HCat(BToLE(c.g, gs + 1), BToLE(c.b0, gs + 1)))
               IN HCat(body, HZeros(FormSize - HLen(body)))
\* the public operation: reduce, then encode
Encode(D, f) == LET r == Reduce(D, f) IN EncodeWith(r[1], r[2], BBits(D))

Reject == <<"reject">>
IsSquare(n) == BMul(BIsqrt(n), BIsqrt(n)) = n

\* Decoding of a byte string into a pair (a,b), before any group-level check.
DecodePair(D, h, dbits, strict) ==
  IF BSign(D) >= 0 \/ dbits = 0 \/ dbits > MaxDBits THEN Reject
  ELSE IF HLen(h) # FormSize THEN Reject
  ELSE LET f0 == HByte(h, 0) IN
  IF (f0 \div 8) % 2 = 1 THEN <<"2", "1">>
  ELSE IF (f0 \div 4) % 2 = 1 THEN <<"1", "1">>
  ELSE LET d  == Round32(dbits)
           gs == HByte(h, 1)
  IN IF gs >= d \div 32 THEN Reject
  ELSE LET la == d \div 16 - gs
           lt == d \div 32 - gs
           a  == BOfLE(HSub(h, 2, la))
           tm == BOfLE(HSub(h, 2 + la, lt))
           t  == IF (f0 \div 2) % 2 = 1 THEN BNeg(tm) ELSE tm
           g  == BOfLE(HSub(h, 2 + la + lt, gs + 1))
           b0 == BOfLE(HSub(h, 2 + la + lt + gs + 1, gs + 1))
           neg == f0 % 2 = 1
           Canon(p) == IF EncodeWith(p[1], p[2], dbits) = h THEN p ELSE Reject
  IN IF t = "0" THEN Canon(<<a, a>>)
     ELSE IF a = "0" THEN Reject
     ELSE LET tp == BMod(t, a)
              x  == BExt(tp, a)
          IN IF x[1] # "1" THEN Reject
             ELSE LET sq == BMod(BMul(BMod(BMul(t, t), a), BMod(D, a)), a)
                  IN IF ~IsSquare(sq) THEN Reject
                     ELSE LET b1 == BMod(BMul(BIsqrt(sq), BMod(x[2], a)), a)
                              A  == IF BLt("1", g) THEN BMul(a, g) ELSE a
                              b2 == BAdd(b1, BMul(a, b0))
                              b  == IF neg THEN BNeg(b2) ELSE b2
                          IN IF strict /\ BLt(A, BAbs(b)) THEN Reject
                             ELSE Canon(<<A, b>>)

\* the flag-marked identity and generator: one significant byte, the rest is not looked at
Flagged(h) == (HByte(h, 0) \div 4) % 4 # 0

\* Group element denoted by a byte string, or Reject.  The strict decoder accepts only the
\* encoding of the reduced representative; the lenient one (kept for consensus compatibility)
\* also accepts self-consistent encodings of other representatives and reduces them.
Decode(D, h, strict) ==
  LET p == DecodePair(D, h, BBits(D), strict) IN
  IF p = Reject \/ BSign(p[1]) <= 0 THEN Reject
  ELSE IF ~IsForm(D, p) THEN Reject
  ELSE LET r == Reduce(D, p) IN
       IF strict /\ r # p /\ ~Flagged(h) THEN Reject ELSE r
===========================================================================
