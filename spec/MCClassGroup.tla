--------------------------- MODULE MCClassGroup ---------------------------
(* Exhaustive model of the class groups of all discriminants in Ds: every   *)
(* pair of reduced forms is a state; the invariants are the group laws, the *)
(* agreement of the native operators with their TLA+ definitions and the    *)
(* encoding laws; each transition is one call to be replayed into the code. *)
EXTENDS Bqfc, Integers, FiniteSets, Json
CONSTANTS Replay, Ds
VARIABLES D, f, g, done
vars == <<D, f, g, done>>

IsPrimeInt(n) == n > 1 /\ \A k \in 2..(n-1) : k*k > n \/ n % k # 0
SquareFree(n) == \A k \in 2..(n-1) : k*k > n \/ n % (k*k) # 0
DsQuick == {d \in -199..-1 : d % 8 = 1 /\ IsPrimeInt(-d)} \cup {-15, -39, -55, -87, -95, -111, -119, -143}
DsThorough == {d \in -650..-1 : d % 8 = 1 /\ SquareFree(-d)} \cup {-1095, -1655}
IAbs(i) == IF i < 0 THEN -i ELSE i
FormsInt(d) ==                          \* by definition: all reduced (a,b,c), b^2-4ac = d
  LET lim == CHOOSE n \in 1..200 : 3*n*n >= -d /\ 3*(n-1)*(n-1) < -d
      cand == {<<a, b>> \in (1..lim) \X ((-lim)..lim) :
                 /\ IAbs(b) <= a /\ (b*b - d) % (4*a) = 0 /\ (b*b - d) \div (4*a) >= a
                 /\ ((IAbs(b) = a \/ (b*b - d) \div (4*a) = a) => b >= 0)
                 /\ \A p \in 2..a : ~(a % p = 0 /\ b % p = 0 /\ ((b*b - d) \div (4*a)) % p = 0)}
  IN cand
AllForms == [d \in Ds |-> {<<BInt(x[1]), BInt(x[2])>> : x \in FormsInt(d)}]

Init == /\ D \in Ds
        /\ f \in AllForms[D] /\ g \in AllForms[D]
        /\ done = FALSE
DD == BInt(D)
Fg == Compose(DD, f, g)
Call == /\ ~done /\ done' = TRUE
        /\ (Replay => PrintT(ToJson([D |-> DD, f |-> f, g |-> g, fg |-> Fg, ff |-> Compose(DD, f, f), enc |-> Encode(DD, f)])))
        /\ UNCHANGED <<D, f, g>>
Next == Call
Spec == Init /\ [][Next]_vars

Closed      == Fg \in AllForms[D]
Agree       == /\ Compose(DD, f, g) = SpecCompose(DD, f, g)
               /\ Pow(DD, f, "b") = SpecPow(DD, f, "b")
               /\ Reduce(DD, <<f[1], BAdd(f[2], BShl(f[1], 3))>>) = f
               /\ SpecReduce(DD, <<C4(DD, f[1], f[2]), BNeg(f[2])>>) = f
Commutes    == Fg = Compose(DD, g, f)
Neutral     == Compose(DD, f, Identity(DD)) = f
Inverses    == Compose(DD, f, Inverse(DD, f)) = Identity(DD)
Associative == \A h \in AllForms[D] : Compose(DD, Fg, h) = Compose(DD, f, Compose(DD, g, h))
Lagrange    == Pow(DD, f, BInt(Cardinality(AllForms[D]))) = Identity(DD)
Cancels     == (f # g) => \A h \in {Fg} : Compose(DD, f, h) # Compose(DD, g, h)
RoundTrip   == /\ Encode(DD, f) # ""
               /\ Decode(DD, Encode(DD, f), TRUE) = f
               /\ Decode(DD, Encode(DD, f), FALSE) = f
\* no other representative of a class has an encoding the strict decoder accepts
Others(d, x) == {<<x[1], BAdd(x[2], BShl(x[1], 1))>>, <<x[1], BSub(x[2], BShl(x[1], 1))>>,
                 <<C4(d, x[1], x[2]), BNeg(x[2])>>, <<C4(d, x[1], x[2]), x[2]>>} \ {x}
StrictUnique == \A y \in Others(DD, f) :
                  LET h == EncodeWith(y[1], y[2], BBits(DD)) IN
                  (h # "" /\ y \notin AllForms[D]) => Decode(DD, h, TRUE) = Reject \/ Encode(DD, Decode(DD, h, TRUE)) = h \/ Flagged(h)
Injective   == (f # g) => Encode(DD, f) # Encode(DD, g)
===========================================================================
