---------------------------- MODULE ClassGroup ----------------------------
(* The class group of positive definite binary quadratic forms of a         *)
(* negative discriminant D, as an executable specification: a form is the   *)
(* pair <<a, b>> of Big integers, c = (b^2 - D) / 4a being determined.      *)
(* Composition is Gauss/Dirichlet composition written out with the extended *)
(* gcd, followed by Gauss reduction: nothing of NUCOMP / NUDUPL, of the     *)
(* batching reducer or of the limb-level pipeline appears here.             *)
EXTENDS Big

C4(D, a, b) == BDiv(BSub(BMul(b, b), D), BShl(a, 2))
IsForm(D, f) == /\ BSign(f[1]) > 0
                /\ BMod(BSub(BMul(f[2], f[2]), D), BShl(f[1], 2)) = "0"
IsReducedForm(D, f) ==
  LET a == f[1]  b == f[2]  c == C4(D, a, b) IN
  /\ IsForm(D, f) /\ BLe(BAbs(b), a) /\ BLe(a, c)
  /\ (BAbs(b) = a \/ a = c) => BSign(b) >= 0

\* b moved to the interval (-a, a]
Normal(a, b) ==
  LET r == BMod(b, BShl(a, 1)) IN IF BLt(a, r) THEN BSub(r, BShl(a, 1)) ELSE r

RECURSIVE GaussReduce(_, _, _)
GaussReduce(D, a, b) ==
  LET nb == Normal(a, b)
      c  == C4(D, a, nb)
  IN IF BLt(c, a) THEN GaussReduce(D, c, BNeg(nb))
     ELSE IF c = a /\ BSign(nb) < 0 THEN <<a, BNeg(nb)>>
     ELSE <<a, nb>>

SpecReduce(D, f) == GaussReduce(D, f[1], f[2])

\* Dirichlet composition: <<a1,b1>> * <<a2,b2>>.  e = gcd(a1, a2, (b1+b2)/2).
SpecCompose(D, f, g) ==
  LET a1 == f[1]  b1 == f[2]  a2 == g[1]  b2 == g[2]
      s  == BDiv(BAdd(b1, b2), "2")
      x1 == BExt(a1, a2)                       \* u*a1 + v*a2 = g1
      x2 == BExt(x1[1], s)                     \* p*g1 + q*s  = e
      e  == x2[1]
      u  == BMul(x2[2], x1[2])                 \* u*a1 + v*a2 + q*s = e
      v  == BMul(x2[2], x1[3])
      q  == x2[3]
      a3 == BDiv(BMul(a1, a2), BMul(e, e))
      \* b3 = (u*a1*b2 + v*a2*b1 + q*(b1*b2 + D)/2) / e  (mod 2*a3)
      t  == BAdd(BAdd(BMul(u, BMul(a1, b2)), BMul(v, BMul(a2, b1))),
                 BMul(q, BDiv(BAdd(BMul(b1, b2), D), "2")))
      b3 == BMod(BDiv(t, e), BShl(a3, 1))
  IN SpecReduce(D, <<a3, b3>>)

Identity(D) == IF BMod(D, "2") = "1" THEN <<"1", "1">> ELSE <<"1", "0">>
Inverse(D, f) == SpecReduce(D, <<f[1], BNeg(f[2])>>)
Generator(D) == <<"2", "1">>        \* D = 1 (mod 8)

RECURSIVE SpecPowBits(_, _, _, _, _)
SpecPowBits(D, f, e, i, acc) ==      \* left-to-right binary exponentiation
  IF i < 0 THEN acc
  ELSE LET sq == SpecCompose(D, acc, acc)
           nx == IF BBit(e, i) = 1 THEN SpecCompose(D, sq, f) ELSE sq
       IN SpecPowBits(D, f, e, i - 1, nx)
SpecPow(D, f, e) == SpecPowBits(D, SpecReduce(D, f), e, BBits(e) - 1, Identity(D))
============================================================================
