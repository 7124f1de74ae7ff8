----------------------------- MODULE StoreTrace -----------------------------
(* Recorded contents of the stores of intermediate powers and recorded       *)
(* proofs, against the specification: the power stored for exponent e is     *)
(* x^(2^e), a proof is the encoding of the output and canonical witnesses.   *)
(* h is a multiple of the order of x, or "0" when unknown.                   *)
EXTENDS Canon, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Explains(e) ==
  CASE e.op = "group" -> OrderOk(e.D, e.f, e.h)                 \* the order given with a group is a multiple of the order of x
    [] e.op = "pow" -> Reduce(e.D, e.out) = PowTwo(e.D, e.f, e.e, e.h) /\ IsForm(e.D, e.out)
    [] e.op = "seqpow" -> \* stored powers e.es[i] in increasing order of a group of unknown order
         LET RECURSIVE Go(_, _, _)
             Go(f, at, i) == IF i > Len(e.es) THEN TRUE
                             ELSE LET g == SquareN(e.D, f, e.es[i] - at) IN Reduce(e.D, e.outs[i]) = g /\ Go(g, e.es[i], i + 1)
         IN Go(Reduce(e.D, e.f), 0, 1)
    [] e.op = "slots" -> \* storage slots of powers that are live together: distinct and inside the storage
         LET all == {<<e.b[i], e.e[i]>> : i \in DOMAIN e.b} pos == {e.pos[i] : i \in DOMAIN e.pos}
         IN /\ Cardinality(all) = Cardinality(pos) /\ \A p \in pos : p >= 0 /\ p < e.cap
            /\ \A i, j \in {1, Len(e.b)} : (e.b[i] = e.b[j] /\ e.e[i] = e.e[j]) => e.pos[i] = e.pos[j]
    [] e.op = "one" -> e.out = One(e.D, e.f, e.T, e.h)
    [] e.op = "multi" -> /\ SumIs(e.lens, e.T) /\ Len(e.lens) <= 64
                         /\ e.out = Segs(e.D, e.f, e.lens, 1, e.h, "")
    [] e.op = "verify" -> VerifyN(e.D, Encode(e.D, e.f), e.out, e.T, BBits(e.D), e.depth)
Init == l = 1
Next == l <= Len(Trace) /\ Explains(E) /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
                 \/ PrintT(<<"STUCK", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
