-------------------------- MODULE ClassGroupFast --------------------------
(* The same operators under names that TLC evaluates natively               *)
(* (spec/java/ClassGroupFast.java).  The definitions below are what the     *)
(* native versions must compute; MCClassGroup checks that they agree.       *)
EXTENDS ClassGroup
Reduce(D, f)     == SpecReduce(D, f)
Compose(D, f, g) == SpecCompose(D, f, g)
Pow(D, f, e)     == SpecPow(D, f, e)
RECURSIVE SquareN(_, _, _)
SquareN(D, f, k) == IF k = 0 THEN SpecReduce(D, f) ELSE SquareN(D, SpecCompose(D, f, f), k - 1)
============================================================================
