--------------------------- MODULE PartialGcd ---------------------------
(* The half-gcd stopping rule that fixes the consensus encoding.  The       *)
(* Euclidean sequence of (r2, r1) is advanced in batches of single-word     *)
(* steps on the leading 63 bits; a batch ends at the truncated bound or     *)
(* when the next quotient is no longer certain (Lehmer / Jebelean), so the  *)
(* remainder that is finally <= L is occasionally one step further than in  *)
(* the exact sequence.  Cofactor is what TLC evaluates natively             *)
(* (spec/java/PartialGcd.java); SpecCofactor is its definition; the trace   *)
(* event "cofactor" checks that the two agree at production sizes.          *)
EXTENDS Big
LOCAL Mx(x, y) == IF x > y THEN x ELSE y
LOCAL Ln(x) == IF x = "0" THEN 1 ELSE BBits(x)
RECURSIVE Inner(_, _, _, _, _, _, _, _)
\* <<number of steps, aa2, aa1, bb2, bb1>>
Inner(x2, x1, a2, a1, b2, b1, bb, i) ==
  IF x1 = "0" \/ ~BLt(bb, x1) THEN <<i, a2, a1, b2, b1>>
  ELSE LET q  == BDiv(x2, x1)
           t1 == BSub(x2, BMul(q, x1))
           t2 == BSub(a2, BMul(q, a1))
           t3 == BSub(b2, BMul(q, b1))
           unsure == IF i % 2 = 1
                     THEN BLt(t1, BNeg(t3)) \/ BLt(BSub(x1, t1), BSub(t2, a1))
                     ELSE BLt(t1, BNeg(t2)) \/ BLt(BSub(x1, t1), BSub(t3, b1))
       IN IF unsure THEN <<i, a2, a1, b2, b1>>
          ELSE Inner(x1, t1, a1, t2, b1, t3, bb, i + 1)
RECURSIVE Outer(_, _, _, _, _)
\* <<co1, r1>> at the stop
Outer(r2, r1, co2, co1, L) ==
  IF r1 = "0" \/ ~BLt(L, r1) THEN co1
  ELSE LET sh == Mx(Mx(Ln(r2), Ln(r1)) - 63, 0)
           s  == Inner(BShr(r2, sh), BShr(r1, sh), "0", "1", "1", "0", BShr(L, sh), 0)
       IN IF s[1] = 0
          THEN LET q == BDiv(r2, r1)
               IN Outer(r1, BSub(r2, BMul(q, r1)), co1, BSub(co2, BMul(q, co1)), L)
          ELSE LET n2 == BAdd(BMul(r2, s[4]), BMul(r1, s[2]))
                   n1 == BAdd(BMul(r1, s[3]), BMul(r2, s[5]))
                   c2 == BAdd(BMul(co2, s[4]), BMul(co1, s[2]))
                   c1 == BAdd(BMul(co1, s[3]), BMul(co2, s[5]))
               IN Outer(BAbs(n2), BAbs(n1), IF BSign(n2) < 0 THEN BNeg(c2) ELSE c2, IF BSign(n1) < 0 THEN BNeg(c1) ELSE c1, L)
SpecCofactor(a, b) == BNeg(Outer(a, b, "0", "-1", BIsqrt(a)))
Cofactor(a, b) == SpecCofactor(a, b)
=========================================================================
