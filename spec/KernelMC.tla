------------------------------ MODULE KernelMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of BTKernel for a set of trees (JSON, see        *)
(* harness/kernel.py): every operation in every reachable state.  Checks   *)
(* the listed properties on the model and prints every transition so that  *)
(* the harness can replay them on the real nodes.                          *)
(***************************************************************************)
EXTENDS BTKernel, TLC, TLCExt, Json, IOUtils

Trees == JsonDeserialize(IOEnv.TREES)
EMIT == IOEnv.EMIT = "1"

VARIABLES tx, s, now, obs
vars == <<tx, s, now, obs>>
View == <<tx, s, now>>

NoObs == [op |-> [k |-> "none"], r |-> IDLE, x |-> <<>>]

Ops(tr) ==
  {[k |-> k, scr |-> c, inp |-> i, now |-> now + d] :
     <<k, c, i, d>> \in
       UNION {{<<k, tr.scrs[k][a], tr.inps[b], tr.dts[e]>> :
                 a \in 1..Len(tr.scrs[k]), b \in 1..Len(tr.inps), e \in 1..Len(tr.dts)}
               : k \in {tr.ks[j] : j \in 1..Len(tr.ks)}}}

Init == /\ tx \in 1..Len(Trees)
        /\ s = Fresh(Trees[tx])
        /\ now = 0
        /\ obs = NoObs

Next ==
  LET tr == Trees[tx] IN
  \E op \in Ops(tr) :
    /\ op.now <= tr.tmax
    /\ LET x == Step(tr, op, s) IN
         /\ s' = Clear(x.s)
         /\ now' = op.now
         /\ obs' = [op |-> op, r |-> x.r, x |-> x.s]
         /\ UNCHANGED tx

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Emission of transitions *)

Compact(ss) == [i \in DOMAIN ss.n |->
   <<ss.n[i].st, ss.n[i].mem, ss.n[i].aux, ss.n[i].t, ss.n[i].inp, ss.n[i].upd, ss.n[i].out>>]

Emit ==
  IF EMIT THEN
    PrintT("@E " \o ToJson(<<tx, now, Compact(s), obs'.op.k, obs'.op.scr, obs'.op.inp, obs'.op.now,
                       obs'.r, Compact(s'), obs'.x.log>>))
  ELSE TRUE

-----------------------------------------------------------------------------
(* Properties of single steps; x is the state after the step with history. *)

TR == Trees[tx]
X == obs'.x
OP == obs'.op
R == obs'.r
N == 1..Trees[tx].n

Desc(i) ==
  LET RECURSIVE D(_)
      D(S) == LET T == S \cup UNION {{Kids(TR, j)[m] : m \in 1..Len(Kids(TR, j))} : j \in S}
              IN IF T = S THEN S ELSE D(T)
  IN D({i})

\* C01: result and state of every call fit the protocol
Lifecycle ==
  /\ R # ERR => R \in Allowed(OP.k) /\ s'.n[1].st = R
  /\ (R # ERR => Callable(OP.k, s.n[1].st))
  /\ ~Callable(OP.k, s.n[1].st) => R = ERR /\ X.log = <<>> /\ \A i \in N : s'.n[i].st = s.n[i].st
  /\ \A i \in N :
       /\ X.n[i].cal = <<>> => s'.n[i].st = s.n[i].st
       /\ s.n[i].st = BRO /\ s'.n[i].st # BRO => OP.k = "shutdown"
       /\ s'.n[i].st \in {UNINIT} => s.n[i].st = UNINIT

\* C06: nothing keeps running
Quiet ==
  /\ (OP.k = "untick" /\ R # ERR) => \A i \in N : s'.n[i].st # RUN
  /\ (OP.k = "tick" /\ R # ERR) =>
       \A i \in N : (TR.type[i] \notin {"IGNR"} /\ X.n[i].cal # <<>> /\ s'.n[i].st \in Terminal) =>
          \A m \in 1..Len(Kids(TR, i)) : s'.n[Kids(TR, i)[m]].st # RUN
  /\ OP.k = "shutdown" =>
       \A i \in N : /\ X.n[i].cal = <<"shutdown">>
                    /\ TR.type[i] \in Scripted => (s'.n[i].st = SHU) = (OP.scr[i] \notin {"err", "bad"} \/ s.n[i].st = SHU)
                    /\ TR.type[i] \notin Scripted => s'.n[i].st = SHU
  /\ \A i \in N : Cardinality({c \in 1..Len(X.n[i].cal) : X.n[i].cal[c] = "tick"}) <= 1
  /\ OP.k # "tick" => \A i \in N : \A c \in 1..Len(X.n[i].cal) : X.n[i].cal[c] = OP.k

KS(i, x) == {j \in 1..Len(Kids(TR, i)) : s'.n[Kids(TR, i)[j]].st = x}
\* position in which child j of i was ticked in this step
Ticked(i) == {j \in 1..Len(Kids(TR, i)) :
                \E c \in 1..Len(X.n[Kids(TR, i)[j]].cal) : X.n[Kids(TR, i)[j]].cal[c] = "tick"}
\* ticked with an answer, and nothing else (so that s is the state before the tick)
TickedOk(i) == OP.k = "tick" /\ s'.n[i].st \in {RUN, SUC, FAI} /\ X.n[i].cal = <<"tick">>
WasReset(i) == \A j \in 1..Len(Kids(TR, i)) :
                  \E c \in 1..Len(X.n[Kids(TR, i)[j]].cal) : X.n[Kids(TR, i)[j]].cal[c] = "reset"

\* C02
Interval(S, lo) == \A j \in S : \A m \in lo..j : m \in S
SeqProp ==
  \A i \in N : (TR.type[i] \in FlowSeq \cup FlowFb /\ TickedOk(i) /\ Len(Kids(TR, i)) > 0) =>
    LET go == IF TR.type[i] \in FlowSeq THEN SUC ELSE FAI      \* result that lets it go on
        stop == IF go = SUC THEN FAI ELSE SUC
        T == Ticked(i)
        last == CHOOSE j \in T : \A m \in T : m <= j
        first == CHOOSE j \in T : \A m \in T : m >= j
        res == s'.n[i].st
    IN /\ T # {}
       /\ Interval(T, first)
       /\ TR.type[i] \in {"SEQ", "FB"} => first = 1
       /\ s.n[i].st \in Terminal => WasReset(i) /\ first = 1
       /\ res = go => KS(i, go) = 1..Len(Kids(TR, i)) \/ (last = Len(Kids(TR, i)) /\ \A j \in T : j \in KS(i, go))
       /\ res # go => last \in KS(i, res) /\ \A j \in T \ {last} : j \in KS(i, go)
       /\ res \in Terminal => \A j \in 1..Len(Kids(TR, i)) : j \notin KS(i, RUN)
       /\ (TR.type[i] \in {"MSEQ", "MFB"} /\ s.n[i].st = RUN /\ KS(i, RUN) # {})
             => \A j \in 1..Len(Kids(TR, i)) : s.n[Kids(TR, i)[j]].st = RUN => first <= j

\* C03
ParProp ==
  \A i \in N : (TR.type[i] \in FlowPar /\ TickedOk(i)) =>
    LET n == Len(Kids(TR, i))
        res == s'.n[i].st
        \* results so far: a child without a result that was unticked has none
        suc == Cardinality(KS(i, SUC))
        fai == Cardinality(KS(i, FAI))
        need == TR.p1[i]
        tol == IF TR.type[i] = "PFT" THEN TR.p2[i] ELSE n - need
    IN /\ res = SUC <=> suc >= need
       /\ res = FAI <=> suc < need /\ fai > tol
       /\ res \in Terminal => KS(i, RUN) = {}
       /\ s.n[i].st \in Terminal => WasReset(i) /\ Ticked(i) = 1..n
       /\ s.n[i].st \notin Terminal =>
            Ticked(i) = {j \in 1..n : s.n[Kids(TR, i)[j]].st \notin Terminal}

\* C04
SwitchProp ==
  \A i \in N : (TR.type[i] \in Switches /\ TickedOk(i)) =>
    LET n == Len(Kids(TR, i))
        sel == s'.n[i].inp[1][1]
    IN /\ Ticked(i) \subseteq {sel}
       /\ sel \in 1..n => s'.n[i].st = s'.n[Kids(TR, i)[sel]].st /\ Ticked(i) = {sel}
       /\ sel \notin 1..n => s'.n[i].st = FAI
       /\ \A j \in KS(i, RUN) : j = sel
       /\ (s.n[i].st \in Terminal /\ sel \in 1..n) => WasReset(i)

\* C05 (stateless decorators: image of the child's result)
Image(i, c) ==
  LET ty == TR.type[i] IN
  CASE ty = "IGNF" -> IF c = FAI THEN SUC ELSE c
    [] ty = "IGNS" -> IF c = SUC THEN FAI ELSE c
    [] ty = "IGNR" -> IF c = RUN THEN (IF TR.p1[i] = 1 THEN SUC ELSE FAI) ELSE c
    [] ty = "INV" -> IF c = FAI THEN SUC ELSE IF c = SUC THEN FAI ELSE c
    [] OTHER -> c
DecoProp ==
  \A i \in N : (TickedOk(i) /\ HasKid(TR, i)) =>
    LET k == Kid(TR, i)
        a == s.n[i]
        b == s'.n[i]
    IN /\ TR.type[i] \in {"IGNF", "IGNS", "IGNR", "INV", "WATCH", "SDEC"} =>
            b.st = Image(i, s'.n[k].st)
       /\ TR.type[i] = "RETRY" =>
            /\ b.mem \in 0..TR.p1[i]
            /\ b.st = FAI <=> s'.n[k].st = FAI
            /\ b.st = FAI => a.mem = TR.p1[i] /\ b.mem = 0
            /\ b.mem > a.mem => b.mem = a.mem + 1 /\ b.st = RUN /\ s'.n[k].st = IDLE
       /\ TR.type[i] = "REPEAT" =>
            /\ b.mem \in 0..TR.p1[i]
            /\ b.st = SUC => a.mem = TR.p1[i]
            /\ b.mem > a.mem => b.mem = a.mem + 1 /\ b.st = RUN /\ s'.n[k].st = IDLE
       /\ TR.type[i] = "RNAR" => b.mem \in 0..TR.p1[i] /\ (b.st = SUC <=> Ticked(i) = {})
       /\ TR.type[i] = "RALW" => b.st = RUN
       /\ TR.type[i] = "RUF" => b.st # SUC
       /\ TR.type[i] \in {"UNTIL", "RIF"} => b.st # FAI
       /\ TR.type[i] = "OPT" => b.st = IF a.aux = 1 THEN s'.n[k].st ELSE SUC
       /\ TR.type[i] = "ITER" =>
            /\ b.st = FAI => s'.n[k].st = FAI
            /\ b.mem > a.mem => b.mem = a.mem + 1 /\ s'.n[k].st = SUC
            /\ (b.out # <<>> /\ a.inp # <<>> /\ a.inp = b.inp /\ b.inp[1] # <<>>) =>
                  \E m \in 1..Len(b.inp[1]) : b.out[1] = b.inp[1][m]

\* C23
TimeProp ==
  \A i \in N : TickedOk(i) =>
    LET a == s.n[i]
        b == s'.n[i]
    IN /\ TR.type[i] = "WAIT" => (b.st = SUC) = (OP.now - b.t >= TR.p1[i]) /\ (a.t # -1 => b.t = a.t)
       /\ (TR.type[i] = "THR" /\ HasKid(TR, i)) =>
            ((a.t # -1 /\ OP.now - a.t <= TR.p1[i]) <=> Ticked(i) = {})
       /\ (TR.type[i] = "THRS" /\ b.st = SUC) =>
            b.t = OP.now /\ (a.t = -1 \/ OP.now - a.t > TR.p1[i])
       /\ (TR.type[i] = "THRS" /\ Ticked(i) = {}) => b.st = FAI

\* C07: memory that influences later behaviour is that of a fresh setup
Core(i, v) ==
  <<v.st,
    IF TR.type[i] = "RNAR" THEN 0 ELSE v.mem,
    IF TR.type[i] = "THR" THEN 0 ELSE v.aux,
    IF TR.type[i] = "THR" THEN 0 ELSE v.t,
    v.upd, v.out>>
AfterSetup == Step(TR, [OP EXCEPT !.k = "setup", !.scr = [i \in N |-> ""], !.inp = [i \in N |-> <<>>]], Fresh(TR))
\* a no-auto-reset repeat that is used up leaves its child alone, and below a
\* failed setup or a skipped optional child nothing is set up
ResetProp ==
  (OP.k = "reset" /\ R # ERR) =>
    \A i \in N :
      (s.n[i].st \notin {UNINIT, SHU} /\ \A j \in N :
         i \in Desc(j) => TR.type[j] # "RNAR" /\ (TR.type[j] = "OPT" /\ i # j => s.n[j].aux = 1))
        => Core(i, s'.n[i]) = Core(i, AfterSetup.s.n[i])
SetupProp ==
  (OP.k = "setup" /\ R # ERR) => \A i \in N :
     X.n[i].cal # <<>> => Core(i, s'.n[i]) = Core(i, AfterSetup.s.n[i]) /\ s'.n[i].inp = <<>>

StepOK == /\ Lifecycle /\ Quiet /\ SeqProp /\ ParProp /\ SwitchProp /\ DecoProp /\ TimeProp
          /\ ResetProp /\ SetupProp
StepProp == [][StepOK]_vars

TypeOK == \A i \in 1..Trees[tx].n : s.n[i].st \in NodeStates
=============================================================================
