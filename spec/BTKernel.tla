------------------------------ MODULE BTKernel ------------------------------
(***************************************************************************)
(* Behaviour-tree kernel: the lifecycle of nodes (setup, tick, untick,     *)
(* reset, shutdown), all shipped flow-control nodes and decorators, and    *)
(* the time based nodes, over scripted leaves.                             *)
(*                                                                         *)
(* A tree tr is a record of sequences indexed by node number 1..tr.n (the  *)
(* root is 1): type, kids, p1, p2.  Node state is                          *)
(*   st   lifecycle state          mem  remembered child / counter         *)
(*   aux  second memory cell       t    remembered time (-1: none)         *)
(*   inp  <<>> or <<value>> (dynamic input; a value is a sequence of ints) *)
(*   upd  input updated flag       out  <<>> or <<value>> (output)         *)
(*   cal  calls received during the current root operation (history only)  *)
(* An operation op on the root has op.k (kind), op.scr (what each scripted *)
(* node's own code answers), op.inp (values written to inputs beforehand)  *)
(* and op.now (the clock).  All operators are deterministic and functional:*)
(* they thread the whole state s, which carries the call log of the leaves.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

UNINIT == "UNINITIALIZED"
IDLE == "IDLE"
RUN == "RUNNING"
SUC == "SUCCEEDED"
FAI == "FAILED"
ASG == "ASSIGNED"
UNA == "UNASSIGNED"
PAU == "PAUSED"
BRO == "BROKEN"
SHU == "SHUTDOWN"
ERR == "ERR"

Terminal == {SUC, FAI}
NodeStates == {UNINIT, IDLE, RUN, SUC, FAI, ASG, UNA, PAU, BRO, SHU}

FlowSeq   == {"SEQ", "MSEQ"}
FlowFb    == {"FB", "MFB"}
FlowPar   == {"PAR", "PFT"}
Switches  == {"NSW", "ESW"}
FlowTypes == FlowSeq \cup FlowFb \cup FlowPar \cup Switches
\* decorators whose untick/reset/setup just forward to the child
Plain     == {"IGNF", "IGNR", "IGNS", "UNTIL", "INV", "WATCH", "THR", "THRS", "SDEC"}
\* decorators that report PAUSED when unticked
Pausing   == {"RETRY", "REPEAT", "RNAR", "RALW", "RUF", "RIF", "ITER"}
DecoTypes == Plain \cup Pausing \cup {"OPT"}
\* types whose code looks at the updated flag (kept only for them)
UsesUpd   == {"WATCH", "ITER"}
HasInput  == {"NSW", "ESW", "WATCH", "RNAR", "ITER"}
Scripted  == {"LEAF", "SDEC"}

FreshNode == [st |-> UNINIT, mem |-> 0, aux |-> 0, t |-> -1,
              inp |-> <<>>, upd |-> FALSE, out |-> <<>>, cal |-> <<>>]
Fresh(tr) == [n |-> [i \in 1..tr.n |-> FreshNode], log |-> <<>>]

Kids(tr, i) == tr.kids[i]

Res(s, r) == [s |-> s, r |-> r]
SetSt(s, i, x) == [s EXCEPT !.n[i].st = x]
IsErr(x) == x.r = ERR

\* Only the first child of a decorator counts (they have at most one).
HasKid(tr, i) == Len(Kids(tr, i)) > 0
Kid(tr, i) == Kids(tr, i)[1]

RECURSIVE Call(_, _, _, _, _)
RECURSIVE CallFrom(_, _, _, _, _, _)
RECURSIVE SeqLoop(_, _, _, _, _)
RECURSIVE FbLoop(_, _, _, _, _)
RECURSIVE ParLoop(_, _, _, _, _)
RECURSIVE UntickUnfinished(_, _, _, _, _)
RECURSIVE UntickOthers(_, _, _, _, _, _)
RECURSIVE ShutLoop(_, _, _, _, _, _)

(* Call kind k on all children of node i from position j on, stop at the first error. *)
CallFrom(tr, op, k, i, j, s) ==
  IF j > Len(Kids(tr, i)) THEN Res(s, IDLE)
  ELSE LET c == Call(tr, op, k, Kids(tr, i)[j], s) IN
       IF IsErr(c) THEN c ELSE CallFrom(tr, op, k, i, j + 1, c.s)

CallKid(tr, op, k, i, s) ==
  IF HasKid(tr, i) THEN Call(tr, op, k, Kid(tr, i), s) ELSE Res(s, IDLE)

(* What a leaf's own code answers to call k.  The script of the operation   *)
(* speaks about the call the operation is about; in calls of another kind   *)
(* that happen on the way (untick, reset) the leaf does as asked, unless    *)
(* scripted to fail exactly there ("xs", "xf": else succeed, fail).         *)
Script(op, i, k, ok) ==
  LET w == op.scr[i] IN
  CASE w = "xs" -> IF k = op.k THEN SUC ELSE ERR
    [] w = "xf" -> IF k = op.k THEN FAI ELSE ERR
    [] w = "" \/ k # op.k -> ok
    [] w = "err" -> ERR
    [] w = "bad" -> IF k = "tick" THEN IDLE ELSE RUN   \* not allowed after that call
    [] OTHER -> w

-----------------------------------------------------------------------------
(* Node code: setup *)
\* decorators can execute if their child can, except for OPT which always can
RECURSIVE CanExecute(_, _)
CanExecute(tr, i) ==
  CASE tr.type[i] = "LEAF" -> tr.p2[i] # 1
    [] tr.type[i] \in DecoTypes \ {"OPT"} /\ HasKid(tr, i) -> CanExecute(tr, Kid(tr, i))
    [] OTHER -> TRUE    \* no unexecutable leaves are generated below other nodes under an OPT

DoSetup(tr, op, i, s0) ==
  LET ty == tr.type[i]
      s == IF ty \in {"RETRY", "REPEAT", "RNAR", "MSEQ", "MFB"}
             THEN [s0 EXCEPT !.n[i].mem = 0]
           ELSE IF ty = "ITER" THEN [s0 EXCEPT !.n[i].mem = 0, !.n[i].aux = 1]
           ELSE IF ty = "THR" THEN [s0 EXCEPT !.n[i].t = -1, !.n[i].aux = 0]
           ELSE IF ty \in {"THRS", "WAIT"} THEN [s0 EXCEPT !.n[i].t = -1]
           ELSE IF ty = "OPT" THEN [s0 EXCEPT !.n[i].aux = 0]
           ELSE s0
  IN CASE ty \in FlowPar /\ Len(Kids(tr, i)) < tr.p1[i] -> Res(s, ERR)
       [] ty \in FlowTypes -> CallFrom(tr, op, "setup", i, 1, s)
       [] ty = "LEAF" -> Res(s, Script(op, i, "setup", IDLE))
       [] ty = "WAIT" -> Res(s, IDLE)
       [] ty = "SDEC" /\ op.scr[i] = "err" -> Res(s, ERR)
       [] ty = "OPT" ->
            IF HasKid(tr, i) /\ CanExecute(tr, Kid(tr, i))
              THEN CallKid(tr, op, "setup", i, [s EXCEPT !.n[i].aux = 1])
              ELSE Res(s, IDLE)
       [] OTHER -> CallKid(tr, op, "setup", i, s)

(* Node code: untick *)
DoUntick(tr, op, i, s0) ==
  LET ty == tr.type[i]
      s == IF ty = "MSEQ" THEN [s0 EXCEPT !.n[i].mem = 0] ELSE s0
  IN CASE ty \in FlowTypes ->
            LET c == CallFrom(tr, op, "untick", i, 1, s)
            \* the memory fallback forgets on untick only if it has just returned a result
            IN IF ty = "MFB" /\ ~IsErr(c) /\ s0.n[i].st \in Terminal
                 THEN [c EXCEPT !.s.n[i].mem = 0] ELSE c
       [] ty = "LEAF" -> Res(s, Script(op, i, "untick", IF tr.p1[i] = 1 THEN PAU ELSE IDLE))
       [] ty = "WAIT" -> Res(s, PAU)
       [] ty = "SDEC" /\ op.scr[i] = "err" -> Res(s, ERR)
       [] ty = "OPT" -> IF s.n[i].aux = 1 THEN CallKid(tr, op, "untick", i, s) ELSE Res(s, IDLE)
       [] ty \in Pausing ->
            LET c == CallKid(tr, op, "untick", i, s) IN IF IsErr(c) THEN c ELSE Res(c.s, PAU)
       [] OTHER -> CallKid(tr, op, "untick", i, s)

(* Node code: reset *)
DoReset(tr, op, i, s0) ==
  LET ty == tr.type[i]
      s == IF ty \in {"RETRY", "REPEAT", "MSEQ", "MFB"} THEN [s0 EXCEPT !.n[i].mem = 0]
           ELSE IF ty = "ITER" THEN [s0 EXCEPT !.n[i].mem = 0, !.n[i].aux = 1]
           ELSE IF ty \in {"THRS", "WAIT"} THEN [s0 EXCEPT !.n[i].t = -1]
           ELSE s0
  IN CASE ty \in FlowTypes -> CallFrom(tr, op, "reset", i, 1, s)
       [] ty = "LEAF" -> Res(s, Script(op, i, "reset", IDLE))
       [] ty = "WAIT" -> Res(s, IDLE)
       [] ty = "SDEC" /\ op.scr[i] = "err" -> Res(s, ERR)
       [] ty = "OPT" -> IF s.n[i].aux = 1 THEN CallKid(tr, op, "reset", i, s) ELSE Res(s, IDLE)
       [] ty = "RNAR" /\ s.n[i].mem >= tr.p1[i] -> Res(s, IDLE)
       [] OTHER -> CallKid(tr, op, "reset", i, s)

-----------------------------------------------------------------------------
(* Node code: tick *)

SeqLoop(tr, op, i, j, s) ==
  IF j > Len(Kids(tr, i)) THEN Res(s, SUC)
  ELSE LET c == Call(tr, op, "tick", Kids(tr, i)[j], s) IN
       CASE IsErr(c) -> c
         [] c.r = SUC -> SeqLoop(tr, op, i, j + 1, c.s)
         [] c.r = RUN -> Res(IF tr.type[i] = "MSEQ" THEN [c.s EXCEPT !.n[i].mem = j - 1] ELSE c.s, RUN)
         [] OTHER -> LET u == CallFrom(tr, op, "untick", i, j + 1, c.s) IN
                     IF IsErr(u) THEN u ELSE Res(u.s, c.r)

FbLoop(tr, op, i, j, s) ==
  IF j > Len(Kids(tr, i)) THEN Res(s, FAI)
  ELSE LET c == Call(tr, op, "tick", Kids(tr, i)[j], s) IN
       CASE IsErr(c) -> c
         [] c.r = RUN -> Res(IF tr.type[i] = "MFB" THEN [c.s EXCEPT !.n[i].mem = j - 1] ELSE c.s, RUN)
         [] c.r = SUC -> LET u == CallFrom(tr, op, "untick", i, j + 1, c.s) IN
                         IF IsErr(u) THEN u ELSE Res(u.s, SUC)
         [] OTHER -> FbLoop(tr, op, i, j + 1, c.s)

ParLoop(tr, op, i, j, s) ==
  IF j > Len(Kids(tr, i)) THEN Res(s, IDLE)
  ELSE LET k == Kids(tr, i)[j] IN
       IF s.n[k].st \in Terminal THEN ParLoop(tr, op, i, j + 1, s)
       ELSE LET c == Call(tr, op, "tick", k, s) IN
            IF IsErr(c) THEN c ELSE ParLoop(tr, op, i, j + 1, c.s)

UntickUnfinished(tr, op, i, j, s) ==
  IF j > Len(Kids(tr, i)) THEN Res(s, IDLE)
  ELSE LET k == Kids(tr, i)[j] IN
       IF s.n[k].st \in Terminal THEN UntickUnfinished(tr, op, i, j + 1, s)
       ELSE LET c == Call(tr, op, "untick", k, s) IN
            IF IsErr(c) THEN c ELSE UntickUnfinished(tr, op, i, j + 1, c.s)

UntickOthers(tr, op, i, sel, j, s) ==
  IF j > Len(Kids(tr, i)) THEN Res(s, IDLE)
  ELSE IF j = sel THEN UntickOthers(tr, op, i, sel, j + 1, s)
  ELSE LET c == Call(tr, op, "untick", Kids(tr, i)[j], s) IN
       IF IsErr(c) THEN c ELSE UntickOthers(tr, op, i, sel, j + 1, c.s)

Count(tr, i, s, x) == Cardinality({j \in 1..Len(Kids(tr, i)) : s.n[Kids(tr, i)[j]].st = x})

\* Tolerated failures: given for PFT, implied by the needed successes for PAR.
Tolerance(tr, i) == IF tr.type[i] = "PFT" THEN tr.p2[i] ELSE Len(Kids(tr, i)) - tr.p1[i]

TickFlow(tr, op, i, s0) ==
  LET ty == tr.type[i]
      empty == Len(Kids(tr, i)) = 0
      restart == s0.n[i].st \in Terminal
      pre0 == IF restart THEN [s0 EXCEPT !.n[i].mem = 0] ELSE s0
      pre == IF restart THEN CallFrom(tr, op, "reset", i, 1, pre0) ELSE Res(s0, IDLE)
      sel == IF s0.n[i].inp = <<>> THEN 0 ELSE s0.n[i].inp[1][1]
  IN CASE ty \in FlowSeq /\ empty -> Res(s0, SUC)
       [] ty \in FlowFb /\ empty -> Res(s0, FAI)
       [] ty \in Switches /\ sel \notin 1..Len(Kids(tr, i)) ->
            \* no matching child: nothing is ticked, whatever was running is unticked
            LET u == CallFrom(tr, op, "untick", i, 1, s0) IN IF IsErr(u) THEN u ELSE Res(u.s, FAI)
       [] IsErr(pre) -> pre
       [] ty = "SEQ" -> SeqLoop(tr, op, i, 1, pre.s)
       [] ty = "FB" -> FbLoop(tr, op, i, 1, pre.s)
       [] ty = "MSEQ" -> SeqLoop(tr, op, i, pre.s.n[i].mem + 1, pre.s)
       [] ty = "MFB" -> FbLoop(tr, op, i, pre.s.n[i].mem + 1, pre.s)
       [] ty \in FlowPar ->
            LET c == ParLoop(tr, op, i, 1, pre.s)
                ok == Count(tr, i, c.s, SUC) >= tr.p1[i]
                bad == Count(tr, i, c.s, FAI) > Tolerance(tr, i)
                u == UntickUnfinished(tr, op, i, 1, c.s)
            IN IF IsErr(c) THEN c
               ELSE IF ok \/ bad THEN (IF IsErr(u) THEN u ELSE Res(u.s, IF ok THEN SUC ELSE FAI))
               ELSE Res(c.s, RUN)
       [] OTHER -> \* switches
            LET u == UntickOthers(tr, op, i, sel, 1, pre.s) IN
            IF IsErr(u) THEN u ELSE Call(tr, op, "tick", Kids(tr, i)[sel], u.s)

\* reset the child and report RUNNING
Swallow(tr, op, i, s) ==
  LET c == Call(tr, op, "reset", Kid(tr, i), s) IN IF IsErr(c) THEN c ELSE Res(c.s, RUN)

IterTick(tr, op, i, s0) ==
  LET s1 == IF s0.n[i].upd THEN [s0 EXCEPT !.n[i].mem = 0, !.n[i].aux = 1] ELSE s0
      li == s0.n[i].inp[1]
      cnt == s1.n[i].mem
      s == [s1 EXCEPT !.n[i].out = <<li[cnt + 1]>>]
      rewind(x) == [x EXCEPT !.n[i].mem = 0, !.n[i].aux = 1]
  IN IF li = <<>> THEN
       \* nothing to iterate: a child still running for an earlier list is unticked
       LET u == CallKid(tr, op, "untick", i, s1) IN IF IsErr(u) THEN u ELSE Res(u.s, SUC)
     ELSE IF ~HasKid(tr, i) THEN
       IF cnt + 1 = Len(li) THEN Res(rewind(s), SUC)
       ELSE Res([s EXCEPT !.n[i].mem = cnt + 1], RUN)
     ELSE IF s.n[i].aux = 1 THEN Res([s EXCEPT !.n[i].aux = 0], RUN)
     ELSE LET c == CallKid(tr, op, "tick", i, s) IN
          CASE IsErr(c) -> c
            [] c.r = SUC -> IF cnt + 1 = Len(li) THEN Res(rewind(c.s), SUC)
                            ELSE Res([c.s EXCEPT !.n[i].mem = cnt + 1, !.n[i].aux = 1], RUN)
            [] c.r = FAI -> Res(c.s, FAI)
            [] OTHER -> Res(c.s, RUN)

TickDeco(tr, op, i, s0) ==
  LET ty == tr.type[i]
      nokid == ~HasKid(tr, i)
      lim == tr.p1[i]
      m == s0.n[i].mem
      c == CallKid(tr, op, "tick", i, s0)
      map(f) == Res(c.s, IF c.r \in DOMAIN f THEN f[c.r] ELSE c.r)
      due == s0.n[i].t = -1 \/ op.now - s0.n[i].t > lim
      rst == s0.n[i].inp # <<>> /\ s0.n[i].inp[1] = <<1>>
  IN CASE ty = "ITER" -> IterTick(tr, op, i, s0)
       [] ty = "OPT" -> IF s0.n[i].aux = 1 THEN c ELSE Res(s0, SUC)
       [] ty = "SDEC" -> IF op.scr[i] = "err" THEN Res(s0, ERR)
                         ELSE IF nokid THEN Res(s0, SUC) ELSE c
       [] ty = "THR" ->
            IF ~due \/ nokid THEN Res(s0, IF s0.n[i].aux = 1 THEN SUC ELSE FAI)
            ELSE IF IsErr(c) \/ c.r = RUN THEN c
            ELSE LET s == [c.s EXCEPT !.n[i].t = op.now, !.n[i].aux = IF c.r = SUC THEN 1 ELSE 0]
                     r == Call(tr, op, "reset", Kid(tr, i), s)
                 IN IF IsErr(r) THEN r ELSE Res(r.s, c.r)
       [] ty = "THRS" ->
            IF ~due \/ nokid THEN Res(s0, FAI)
            ELSE IF IsErr(c) \/ c.r = RUN THEN c
            ELSE IF c.r = SUC THEN Res([c.s EXCEPT !.n[i].t = op.now], SUC)
            ELSE Res(c.s, FAI)
       [] ty = "RNAR" ->
            LET s == IF rst THEN [s0 EXCEPT !.n[i].mem = 0] ELSE s0
                k == CallKid(tr, op, "tick", i, s)
            IN IF nokid \/ s.n[i].mem >= lim THEN Res(s, SUC)
               ELSE IF IsErr(k) THEN k
               ELSE IF k.r = SUC THEN Swallow(tr, op, i, [k.s EXCEPT !.n[i].mem = @ + 1])
               ELSE k
       [] nokid -> Res(s0, IF ty \in {"IGNR", "IGNS"} THEN FAI ELSE SUC)
       [] ty = "WATCH" ->
            LET u == IF s0.n[i].upd THEN CallKid(tr, op, "untick", i, s0) ELSE Res(s0, IDLE)
            IN IF IsErr(u) THEN u ELSE CallKid(tr, op, "tick", i, u.s)
       [] IsErr(c) -> c
       [] ty = "IGNF" -> map([x \in {FAI} |-> SUC])
       [] ty = "IGNS" -> map([x \in {SUC} |-> FAI])
       [] ty = "IGNR" -> map([x \in {RUN} |-> IF tr.p1[i] = 1 THEN SUC ELSE FAI])
       [] ty = "INV" -> map([x \in {SUC, FAI} |-> IF x = SUC THEN FAI ELSE SUC])
       [] ty \in {"UNTIL", "RIF"} -> IF c.r = FAI THEN Swallow(tr, op, i, c.s) ELSE c
       [] ty = "RUF" -> IF c.r = SUC THEN Swallow(tr, op, i, c.s) ELSE c
       [] ty = "RALW" -> IF c.r = RUN THEN c ELSE Swallow(tr, op, i, c.s)
       [] ty = "RETRY" ->
            IF c.r # FAI THEN c
            ELSE IF c.s.n[i].mem < lim THEN Swallow(tr, op, i, [c.s EXCEPT !.n[i].mem = @ + 1])
            ELSE Res([c.s EXCEPT !.n[i].mem = 0], FAI)
       [] ty = "REPEAT" ->
            IF c.r # SUC THEN c
            ELSE IF c.s.n[i].mem < lim THEN Swallow(tr, op, i, [c.s EXCEPT !.n[i].mem = @ + 1])
            ELSE c

DoTick(tr, op, i, s) ==
  LET ty == tr.type[i] IN
  CASE ty = "LEAF" -> Res(s, Script(op, i, "tick", SUC))
    [] ty = "WAIT" ->
         LET s1 == IF s.n[i].t = -1 THEN [s EXCEPT !.n[i].t = op.now] ELSE s IN
         Res(s1, IF op.now - s1.n[i].t >= tr.p1[i] THEN SUC ELSE RUN)
    [] ty \in FlowTypes -> TickFlow(tr, op, i, s)
    [] OTHER -> TickDeco(tr, op, i, s)

DoShutdown(tr, op, i, s) ==
  IF tr.type[i] \in Scripted THEN Res(s, Script(op, i, "shutdown", SHU)) ELSE Res(s, SHU)

-----------------------------------------------------------------------------
(* The lifecycle wrapper every call goes through. *)

Callable(k, st) ==
  CASE k = "setup" -> st \in {UNINIT, SHU}
    [] k = "shutdown" -> TRUE
    [] OTHER -> st \notin {UNINIT, SHU, BRO}

Allowed(k) ==
  CASE k \in {"setup", "reset"} -> {IDLE}
    [] k = "tick" -> {RUN, SUC, FAI, ASG, UNA}
    [] k = "untick" -> {IDLE, PAU}
    [] k = "shutdown" -> {SHU}

\* scripted nodes record that their own code ran
Enter(tr, i, k, s) ==
  IF tr.type[i] \in Scripted THEN [s EXCEPT !.log = Append(@, <<i, k>>)] ELSE s

Prepare(tr, k, i, s) ==
  CASE k = "setup" ->
         [s EXCEPT !.n[i].inp = <<>>, !.n[i].upd = tr.type[i] \in UsesUpd, !.n[i].out = <<>>]
    [] k = "reset" -> [s EXCEPT !.n[i].upd = tr.type[i] \in UsesUpd, !.n[i].out = <<>>]
    [] OTHER -> s

Do(tr, op, k, i, s) ==
  CASE k = "setup" -> DoSetup(tr, op, i, s)
    [] k = "tick" -> DoTick(tr, op, i, s)
    [] k = "untick" -> DoUntick(tr, op, i, s)
    [] k = "reset" -> DoReset(tr, op, i, s)

\* all children are shut down, an error of one does not spare the others
ShutLoop(tr, op, i, j, s, e) ==
  IF j > Len(Kids(tr, i)) THEN Res(s, e)
  ELSE LET c == Call(tr, op, "shutdown", Kids(tr, i)[j], s) IN
       ShutLoop(tr, op, i, j + 1, c.s, IF IsErr(c) THEN ERR ELSE e)

Call(tr, op, k, i, s00) ==
  LET s0 == [s00 EXCEPT !.n[i].cal = Append(@, k)]
      st == s0.n[i].st IN
  IF ~Callable(k, st) THEN Res(s0, ERR)
  ELSE IF k = "shutdown" THEN
    LET own == IF st = SHU THEN Res(s0, SHU) ELSE DoShutdown(tr, op, i, Enter(tr, i, k, s0))
        s1 == IF st = SHU THEN s0 ELSE SetSt(own.s, i, IF IsErr(own) THEN BRO ELSE own.r)
        e == IF st # SHU /\ own.r # SHU THEN ERR ELSE SHU
    IN ShutLoop(tr, op, i, 1, s1, e)
  ELSE IF k = "tick" /\ tr.type[i] \in HasInput /\ s0.n[i].inp = <<>> THEN
    Res(SetSt(s0, i, BRO), ERR)
  ELSE
    LET d == Do(tr, op, k, i, Enter(tr, i, k, Prepare(tr, k, i, s0))) IN
    IF IsErr(d) THEN Res(SetSt(d.s, i, BRO), ERR)
    ELSE LET s1 == SetSt(d.s, i, d.r)
             s2 == IF k = "tick" THEN [s1 EXCEPT !.n[i].upd = FALSE] ELSE s1
         IN Res(s2, IF d.r \in Allowed(k) THEN d.r ELSE ERR)

\* values written into inputs before the operation
WriteInputs(tr, op, s) ==
  [s EXCEPT !.n = TLCEval([i \in 1..tr.n |->
     IF op.inp[i] = <<>> THEN s.n[i]
     ELSE [s.n[i] EXCEPT !.inp = op.inp[i],
                         !.upd = s.n[i].upd \/ (tr.type[i] \in UsesUpd /\ s.n[i].inp # op.inp[i])]])]

Clear(s) == [s EXCEPT !.log = <<>>, !.n = TLCEval([i \in DOMAIN s.n |-> [s.n[i] EXCEPT !.cal = <<>>]])]

(* One operation on the root. *)
Step(tr, op, s) == Call(tr, op, op.k, 1, WriteInputs(tr, op, Clear(s)))

(* What the outside sees of a state. *)
Project(tr, s) ==
  [st |-> [i \in 1..tr.n |-> s.n[i].st],
   out |-> [i \in 1..tr.n |-> s.n[i].out],
   upd |-> [i \in 1..tr.n |-> s.n[i].upd],
   log |-> s.log]
=============================================================================
