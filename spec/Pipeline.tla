------------------------------ MODULE Pipeline ------------------------------
(* The two-thread squaring pipeline: both threads run a fixed program per    *)
(* squaring over shared variables; each thread publishes its progress in a   *)
(* counter and waits ("fence") for the counter of the other one.  Every      *)
(* shared variable carries the number of the squaring that last wrote it.    *)
(* A synchronisation operation may fail at any time (a quotient step that    *)
(* cannot be done, an over-long wait), a consistency check may fail too.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Iters,      \* squarings in the batch
          G,          \* quotient steps (entries) of one gcd
          Faults,     \* synchronisation operations may fail
          Corrupt,    \* consistency checks may fail
          DropT, DropP,  \* thread and position of a fence left out, for the experiments on which fences matter (0: none)
          Record      \* keep the schedule

M == 1  \* master: does the work of phases in M-programs and notifies the listener
S == 2  \* slave
\* counter values at the start of each phase; phases 0 and 1 contain a gcd publishing one entry at a time
P(p) == CASE p = 0 -> 0 [] p = 1 -> G + 2 [] p = 2 -> 2 * (G + 2) [] p = 3 -> 2 * (G + 2) + 1 [] p = 4 -> 2 * (G + 2) + 2 [] p = 5 -> 2 * (G + 2) + 3
Adv(v) == [op |-> "adv", v |-> v, x |-> ""]
Pub(v) == [op |-> "pub", v |-> v, x |-> ""]                  \* done by the gcd kernel: no error check
Fence(v) == [op |-> "fence", v |-> v, x |-> ""]
W(x) == [op |-> "w", v |-> 0, x |-> x]
R(x) == [op |-> "r", v |-> 0, x |-> x]
Chk == [op |-> "chk", v |-> 0, x |-> ""]                     \* may detect corruption
End == [op |-> "end", v |-> 0, x |-> ""]                     \* the squaring counts
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
En(n, g) == n \o ToString(g)
Gcd(p, n) == Cat([g \in 1..G |-> <<W(En(n, g)), Pub(P(p) + g)>>]) \o <<W(n \o "_end"), Adv(P(p) + G + 1)>>
Use(p, n) == Cat([g \in 1..G |-> <<Fence(P(p) + g), R(En(n, g))>>])

Master ==
  <<Adv(P(0)), Fence(P(0)), R("ab"), R("bhi"), W("g0_start")>> \o Gcd(0, "g0") \o
  <<Adv(P(1)), Fence(P(1)), W("v_tmp")>> \o Use(1, "g1") \o <<W("v"),
    Adv(P(2)), Fence(P(1)), R("ab"), R("c"), R("v"), W("c_v1"), Fence(P(2)), R("g1_end"), R("ab"), W("h"),
    Adv(P(3)), Fence(P(3)), R("h"), R("t_t_S"), R("v0_2"), W("AB"), W("A_2"),
    Adv(P(4)), Fence(P(3)), R("v0_2"), R("h"), R("A_2"), R("g0_end"), Chk, Fence(P(4)), R("e"), W("AB"), W("bhi"), End>>
Slave ==
  <<Adv(P(0)), Fence(P(0)), R("ab"), W("c"), Chk, R("bhi"), R("ab"), W("k_tmp")>> \o Use(0, "g0") \o <<R("ab"), W("k"),
    Adv(P(1)), Fence(P(0)), R("ab"), R("k"), W("g1_start")>> \o Gcd(1, "g1") \o
  <<Adv(P(2)), Fence(P(1)), R("g1_end"), W("t_t_S"), Fence(P(2)), R("v"), W("v0_2"),
    Adv(P(3)), Fence(P(2)), R("ab"), R("g1_end"), R("v"), W("e"),
    Adv(P(4))>>
Prog(t) == IF t = M THEN Master ELSE Slave
Names == ({Master[i].x : i \in 1..Len(Master)} \cup {Slave[i].x : i \in 1..Len(Slave)}) \ {""}

VARIABLES it, pos, ctr, last, err, ver, nv, heard, bad, stale, sched
vars == <<it, pos, ctr, last, err, ver, nv, heard, bad, stale, sched>>
Init == /\ it = [t \in {M, S} |-> 1] /\ pos = [t \in {M, S} |-> 1] /\ ctr = [t \in {M, S} |-> 0] /\ last = [t \in {M, S} |-> 0]
        /\ err = FALSE /\ ver = [x \in Names \cup {"ab0", "ab1"} |-> 0] /\ nv = 0 /\ heard = 0 /\ bad = FALSE /\ stale = {} /\ sched = <<>>
Running(t) == it[t] # 0
Base(t) == (it[t] - 1) * P(5)
\* the input of squaring i is the output of squaring i - 1, in the other half of a double buffer
Slot(i) == IF i % 2 = 0 THEN "ab0" ELSE "ab1"
Leave(t) == /\ it' = [it EXCEPT ![t] = 0] /\ err' = TRUE /\ UNCHANGED <<pos, ctr, last, ver, nv, heard, stale>>
Step(t) == IF pos[t] = Len(Prog(t)) THEN /\ pos' = [pos EXCEPT ![t] = 1]
                                         /\ it' = [it EXCEPT ![t] = IF @ = Iters THEN 0 ELSE @ + 1]
           ELSE pos' = [pos EXCEPT ![t] = @ + 1] /\ UNCHANGED it
Note(t) == sched' = IF Record THEN Append(sched, t - 1) ELSE sched

Sync(t) ==
  LET o == Prog(t)[pos[t]]  v == Base(t) + o.v IN
  /\ Running(t) /\ o.op \in {"adv", "fence"}
  /\ Note(t) /\ UNCHANGED bad
  /\ \/ /\ o.op = "adv"
        /\ IF err /\ v # ctr[t] THEN Leave(t)
           ELSE ctr' = [ctr EXCEPT ![t] = v] /\ Step(t) /\ UNCHANGED <<last, err, ver, nv, heard, stale>>
     \/ /\ o.op = "fence"
        /\ IF last[t] >= v \/ <<DropT, DropP>> = <<t, pos[t]>> THEN Step(t) /\ UNCHANGED <<ctr, last, err, ver, nv, heard, stale>>
           ELSE IF err THEN Leave(t)
           ELSE /\ ctr[3 - t] >= v
                /\ last' = [last EXCEPT ![t] = v] /\ Step(t) /\ UNCHANGED <<ctr, err, ver, nv, heard, stale>>
     \/ Faults /\ Leave(t)
Data(t) ==
  LET o == Prog(t)[pos[t]] i == it[t] IN
  /\ Running(t) /\ o.op \in {"pub", "w", "r", "chk", "end"}
  /\ UNCHANGED <<last, sched>>
  /\ CASE o.op = "pub" -> ctr' = [ctr EXCEPT ![t] = Base(t) + o.v] /\ Step(t) /\ UNCHANGED <<err, ver, nv, heard, stale, bad>>
       [] o.op = "w" -> /\ ver' = [ver EXCEPT ![IF o.x = "AB" THEN Slot(i) ELSE o.x] = i]
                        /\ Step(t) /\ UNCHANGED <<ctr, err, nv, heard, stale, bad>>
       [] o.op = "r" -> LET x == IF o.x = "ab" THEN Slot(i - 1) ELSE o.x
                            want == IF o.x \in {"ab", "bhi"} THEN i - 1 ELSE i
                        IN /\ stale' = IF ver[x] = want THEN stale ELSE stale \cup {<<t, pos[t]>>}
                           /\ Step(t) /\ UNCHANGED <<ctr, err, ver, nv, heard, bad>>
       [] o.op = "chk" -> \/ Step(t) /\ UNCHANGED <<ctr, err, ver, nv, heard, stale, bad>>
                          \/ Corrupt /\ bad' = TRUE /\ Leave(t)
       [] o.op = "end" -> nv' = nv + 1 /\ heard' = heard + 1 /\ Step(t) /\ UNCHANGED <<ctr, err, ver, stale, bad>>
Done == ~Running(M) /\ ~Running(S) /\ UNCHANGED vars
Next == Sync(M) \/ Data(M) \/ Sync(S) \/ Data(S) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Sync(M) \/ Data(M)) /\ WF_vars(Sync(S) \/ Data(S))

NoStale == stale = {}
Over == ~Running(M) /\ ~Running(S)
\* without a fault the batch completes; otherwise the input of the next squaring is intact, whatever the other thread did meanwhile
Result == Over => /\ heard = nv
                  /\ (~err => nv = Iters)
                  /\ ver[Slot(nv)] = nv
Ends == <>Over
Emit == (Over /\ Record) => PrintT(ToJson(sched))
=============================================================================
