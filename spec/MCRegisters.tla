---------------------------- MODULE MCRegisters ----------------------------
(* A number written by the driver and then held by the engine, which moves  *)
(* carries between digits as it likes: whenever the driver reads the image  *)
(* it gets the number that was written.                                     *)
EXTENDS Registers, Integers, FiniteSets
CONSTANTS N, G, Half
VARIABLES value, img
vars == <<value, img>>

Top == BShl("1", G * ((R * N + G - 1) \div G))         \* the image is cut at a multiple of the register width
Init == \E v \in (-Half)..(Half - 1) : /\ Fits(BInt(v), N) /\ value = BInt(v) /\ img = BMod(Enc(BInt(v), N), Top)
D(i) == SignedDigit(Digit(img, i))
InDigit(x) == BLe(BNeg(BShl("1", R - 1)), x) /\ BLt(x, BShl("1", R - 1))
Carry(i, k) == LET lo == BSub(D(i), BMul(BInt(k), BShl("1", W)))
                   hi == BAdd(D(i + 1), BInt(k))
                   Put(x, j) == BShl(BMod(x, BShl("1", R)), R * j)
               IN /\ InDigit(lo) /\ InDigit(hi)
                  /\ img' = BAdd(BSub(BSub(img, BShl(Digit(img, i), R * i)), BShl(Digit(img, i + 1), R * (i + 1))), BAdd(Put(lo, i), Put(hi, i + 1)))
                  /\ UNCHANGED value
Next == \E i \in 0..(N - 2), k \in {-1, 1} : Carry(i, k)
Spec == Init /\ [][Next]_vars
NoLoss == Dec(img, N) = value
============================================================================
