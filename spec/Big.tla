------------------------------- MODULE Big -------------------------------
(* Arbitrary precision integers and byte strings as TLA+ values.            *)
(* An integer is its canonical lower-case hexadecimal numeral (a string,    *)
(* "-" first when negative), so equality of integers is equality of strings *)
(* and TLC's 32-bit Int is never the limit.  A byte string is an even-      *)
(* length hex string.  The operators denote the mathematical functions      *)
(* named in the comments; TLC evaluates them with spec/java/Big.java        *)
(* (java.math.BigInteger, MessageDigest), which is independent of the code  *)
(* under test.                                                              *)
EXTENDS Naturals, Integers, Sequences
LOCAL Undefined == CHOOSE x : x \notin {}

BInt(i)        == Undefined   \* TLC integer -> Big
BToInt(a)      == Undefined   \* Big -> TLC integer (error when it does not fit)
BAdd(a, b)     == Undefined
BSub(a, b)     == Undefined
BMul(a, b)     == Undefined
BNeg(a)        == Undefined
BAbs(a)        == Undefined
BDiv(a, b)     == Undefined   \* floor division
BMod(a, b)     == Undefined   \* least non-negative residue modulo |b|
BLt(a, b)      == Undefined
BLe(a, b)      == Undefined
BSign(a)       == Undefined   \* -1, 0, 1
BBits(a)       == Undefined   \* bit length of |a|
BBit(a, i)     == Undefined
BSetBit(a, i)  == Undefined
BShl(a, i)     == Undefined
BShr(a, i)     == Undefined   \* floor(a / 2^i)
BPowMod(a,e,m) == Undefined
BProbPrime(a)  == Undefined   \* a is a (probable) prime
BIsqrt(a)      == Undefined   \* floor square root
BGcd(a, b)     == Undefined
BExt(a, b)     == Undefined   \* <<g,u,v>>: g = gcd(a,b) = u*a + v*b
HLen(h)        == Undefined   \* number of bytes
HSub(h, f, l)  == Undefined   \* l bytes from 0-based offset f
HCat(a, b)     == Undefined
HByte(h, i)    == Undefined   \* byte i as 0..255
HZeros(n)      == Undefined
HOfByte(b)     == Undefined
HSha256(h)     == Undefined
\* a memo for values that are functions of a string key; MemoPut(k, v) = v
MemoHas(k)     == Undefined
MemoGet(k)     == Undefined
MemoPut(k, v)  == Undefined
BOfBE(h)       == Undefined   \* unsigned big endian
BOfLE(h)       == Undefined
BToBE(a, len)  == Undefined
BToLE(a, len)  == Undefined
BOfDec(d)      == Undefined   \* decimal numeral
==========================================================================
