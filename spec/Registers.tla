----------------------------- MODULE Registers -----------------------------
(* Numbers in the engine's register images.  A number is held as n digits   *)
(* at a stride of R bits; digit i is a two's complement number of R bits    *)
(* with weight 2^(W*i), R > W, so a number has many representations and the *)
(* engine may leave carries where they are.                                 *)
EXTENDS Big
CONSTANTS W, R

SignedDigit(c) == IF BBit(c, R - 1) = 1 THEN BSub(c, BShl("1", R)) ELSE c
Digit(img, i)  == BMod(BShr(img, R * i), BShl("1", R))
RECURSIVE Dec(_, _)
\* the number an image of n digits denotes
Dec(img, n) == IF n = 0 THEN "0" ELSE BAdd(Dec(img, n - 1), BShl(SignedDigit(Digit(img, n - 1)), W * (n - 1)))

\* the image the driver writes: two's complement over W*n+R bits, every digit but the last reduced to W bits
Enc(v, n) == LET t == BMod(v, BShl("1", W * n + R))
                 RECURSIVE E(_)
                 E(i) == IF i = n - 1 THEN BShl(BShr(t, W * i), R * i)
                         ELSE BAdd(BShl(BMod(BShr(t, W * i), BShl("1", W)), R * i), E(i + 1))
             IN E(0)
\* numbers an image of n digits can carry
Fits(v, n) == LET m == BShl("1", W * (n - 1) + R - 1) IN BLe(BNeg(m), v) /\ BLt(v, m)

\* words of 32 bits: big endian bytes, least significant word first
RECURSIVE ImageOf(_)
ImageOf(h) == IF HLen(h) = 0 THEN "0" ELSE BAdd(BOfBE(HSub(h, 0, 4)), BShl(ImageOf(HSub(h, 4, HLen(h) - 4)), 32))
============================================================================
