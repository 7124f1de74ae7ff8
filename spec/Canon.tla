------------------------------- MODULE Canon -------------------------------
(* The canonical proofs.  h is a multiple of the order of x, or "0" when     *)
(* unknown: with it powers of huge exponents are computed exactly.           *)
EXTENDS Weso, Naturals, Sequences, FiniteSets
OrderOk(D, f, h) == Pow(D, f, h) = Identity(D)
\* x^(2^e), e a natural number given in hexadecimal
PowTwo(D, f, e, h) == IF h = "0" THEN SquareN(D, f, BToInt(e)) ELSE Pow(D, f, BPowMod("2", e, h))
Witness(D, f, T, h, B) == IF h = "0" THEN Pow(D, f, BDiv(BShl("1", BToInt(T)), B))
                          ELSE Pow(D, f, BDiv(BPowMod("2", T, BMul(B, h)), B))
\* the canonical proof of one segment
One(D, f, T, h) == LET y == PowTwo(D, f, T, h) IN HCat(Encode(D, y), Encode(D, Witness(D, f, T, h, GetB(D, f, y))))

\* a proof with recursion segments: lens are the segment lengths from the first one on
RECURSIVE Segs(_, _, _, _, _, _)
Segs(D, f, lens, i, h, acc) ==     \* acc: bytes of the segments 1..i-1 (last one first)
  LET y == PowTwo(D, f, lens[i], h)
      B == GetB(D, f, y)
      w == Encode(D, Witness(D, f, lens[i], h, B))
  IN IF i = Len(lens) THEN HCat(HCat(Encode(D, y), w), acc)
     ELSE Segs(D, y, lens, i + 1, h, HCat(HCat(HCat(BToBE(lens[i], 8), BToBE(B, BBytes)), w), acc))
SumIs(lens, T) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN "0" ELSE BAdd(lens[i], S(i - 1)) IN S(Len(lens)) = T
=============================================================================
