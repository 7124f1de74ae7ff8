------------------------------- MODULE Weso -------------------------------
(* Hash-to-prime, challenges, and acceptance of (n-)Wesolowski proof blobs. *)
EXTENDS Bqfc

BBitsLen == 264
BBytes   == 33
SegLen   == 8 + BBytes + FormSize

RECURSIVE IncBytes(_, _)
IncBytes(h, i) ==          \* big endian increment with wrap-around
  IF i < 0 THEN h
  ELSE LET b == HByte(h, i)
           h2 == HCat(HCat(HSub(h, 0, i), HOfByte((b + 1) % 256)), HSub(h, i + 1, HLen(h) - i - 1))
       IN IF b = 255 THEN IncBytes(h2, i - 1) ELSE h2
Inc(h) == IncBytes(h, HLen(h) - 1)

RECURSIVE Expand(_, _, _)
Expand(sprout, blob, nbytes) ==    \* <<sprout', nbytes of SHA-256 stream>>
  IF HLen(blob) >= nbytes THEN <<sprout, blob>>
  ELSE LET s == Inc(sprout)
           d == HSha256(s)
           need == nbytes - HLen(blob)
       IN Expand(s, HCat(blob, HSub(d, 0, IF need < 32 THEN need ELSE 32)), nbytes)

RECURSIVE SetBits(_, _)
SetBits(n, bits) == IF bits = {} THEN n ELSE LET b == CHOOSE x \in bits : TRUE IN SetBits(BSetBit(n, b), bits \ {b})

RECURSIVE HashPrime(_, _, _)
HashPrime(sprout, bits, mask) ==
  LET e == Expand(sprout, "", bits \div 8)
      p == SetBits(BOfBE(e[2]), mask \cup {0})
  IN IF BProbPrime(p) THEN p ELSE HashPrime(e[1], bits, mask)

ValidDiscArgs(seed, bits) == bits > 0 /\ bits <= MaxDBits /\ bits % 8 = 0 /\ HLen(seed) > 0
CreateDiscriminant(seed, bits) == BNeg(HashPrime(seed, bits, {0, 1, 2, bits - 1}))
GetB(D, x, y) == LET k == HCat(Encode(D, x), Encode(D, y))      \* (the memo saves evaluating it again)
                 IN IF MemoHas(k) THEN MemoGet(k) ELSE MemoPut(k, HashPrime(k, BBitsLen, {BBitsLen - 1}))

\* y such that y = proof^B * x^(2^iters mod B)
SegmentY(D, x, proof, B, iters) ==
  Compose(D, Pow(D, proof, B), Pow(D, x, BPowMod("2", iters, B)))

TheProof(D, x, y, iters) == Pow(D, x, BDiv(BShl("1", BToInt(iters)), GetB(D, x, y)))  \* small iters only

Final(D, x, yb, pb, iters) ==
  LET y == Decode(D, yb, FALSE)  p == Decode(D, pb, FALSE) IN
  IF y = Reject \/ p = Reject THEN FALSE
  ELSE SegmentY(D, x, p, GetB(D, x, y), iters) = y

\* Walk the recursion segments from the end of the blob: <<ok, x, remaining iterations>>
RECURSIVE Walk(_, _, _, _, _, _)
Walk(D, blob, base, x, iters, check) ==
  IF HLen(blob) <= base THEN <<TRUE, x, iters>>
  ELSE LET i  == HLen(blob) - SegLen
           si == BOfBE(HSub(blob, i, 8))
           B  == BOfBE(HSub(blob, i + 8, BBytes))
           p  == Decode(D, HSub(blob, i + 8 + BBytes, FormSize), FALSE)
       IN IF p = Reject \/ B = "0" \/ BLt(iters, si) THEN <<FALSE, x, iters>>
          ELSE LET y == SegmentY(D, x, p, B, si)
               IN IF check /\ GetB(D, x, y) # B THEN <<FALSE, x, iters>>
                  ELSE Walk(D, HSub(blob, 0, i), base, y, BSub(iters, si), check)

LenOk(blob, base, depth) == BInt(HLen(blob)) = BAdd(BInt(base), BMul(depth, BInt(SegLen)))

\* the verdict of full verification (depth and iters are Big: they are 64-bit in the code)
VerifyN(D, xb, blob, iters, dbits, depth) ==
  /\ dbits > 0 /\ dbits <= MaxDBits /\ BBits(D) <= MaxDBits
  /\ LenOk(blob, 2 * FormSize, depth)
  /\ LET x == Decode(D, xb, FALSE) IN
     /\ x # Reject
     /\ LET w == Walk(D, blob, 2 * FormSize, x, iters, TRUE) IN
        w[1] /\ Final(D, w[2], HSub(blob, 0, FormSize), HSub(blob, FormSize, FormSize), w[3])

Verify1(D, xb, yb, pb, iters) ==
  LET x == Decode(D, xb, FALSE) IN x # Reject /\ Final(D, x, yb, pb, iters)

\* verification of a blob whose output is given only by its challenge B: <<TRUE, y bytes>> or <<FALSE, "">>
VerifyB(D, B, xb, blob, iters, depth) ==
  LET x == Decode(D, xb, FALSE) IN
  IF BBits(D) > MaxDBits \/ ~LenOk(blob, FormSize, depth) \/ x = Reject \/ BSign(B) <= 0 THEN <<FALSE, "">>
  ELSE LET w == Walk(D, blob, FormSize, x, iters, TRUE)
           p == Decode(D, HSub(blob, 0, FormSize), FALSE)
       IN IF ~w[1] \/ p = Reject THEN <<FALSE, "">>
          ELSE LET y == SegmentY(D, w[2], p, B, w[3])
               IN IF GetB(D, w[2], y) = B THEN <<TRUE, Encode(D, y)>> ELSE <<FALSE, "">>

\* challenge of the last segment of a blob, "reject" when malformed
GetBFromProof(D, xb, blob, iters, depth) ==
  LET x == Decode(D, xb, FALSE) IN
  IF BBits(D) > MaxDBits \/ ~LenOk(blob, 2 * FormSize, depth) \/ x = Reject THEN "reject"
  ELSE LET w == Walk(D, blob, 2 * FormSize, x, iters, FALSE)
           y == Decode(D, HSub(blob, 0, FormSize), FALSE)
       IN IF ~w[1] \/ y = Reject THEN "reject" ELSE GetB(D, w[2], y)
===========================================================================
