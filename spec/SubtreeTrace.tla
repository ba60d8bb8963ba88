----------------------------- MODULE SubtreeTrace ---------------------------
(* Recorded histories of real trees with subtrees, judged by BTSubtree; and answers to loading trees with subtrees that can or cannot be loaded. *)
EXTENDS BTSubtree, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t

Tree(x) == [kids |-> x.kids, ins |-> [n \in 1..Len(x.ins) |-> ToSet(x.ins[n])], outs |-> [n \in 1..Len(x.outs) |-> ToSet(x.outs[n])],
            wires |-> ToSet(x.wires), kind |-> x.kind, owner |-> x.owner, key |-> x.key]

Obs(T, s, o) ==
  LET bad(n) == IF s.st[n] = "broken" THEN ""
                ELSE IF s.res[n] # o[n].res /\ s.res[n] # "off" THEN "state"
                ELSE IF s.st[n] # "on" THEN ""
                ELSE IF \E k \in T.ins[n] : o[n].inp[k].v # s.inp[n][k].v THEN "input value"
                ELSE IF \E k \in T.ins[n] : o[n].inp[k].u # s.inp[n][k].u THEN "updated flag"
                ELSE IF \E k \in T.outs[n] : o[n].out[k] # s.out[n][k].v THEN "output value"
                ELSE ""
      B == {n \in Ids(T) : bad(n) # "" /\ ~\E i \in 1..Len(s.stack) : s.stack[i] = n /\ bad(n) = "state"}
  IN IF B = {} THEN <<>> ELSE LET n == CHOOSE n \in B : \A m \in B : n <= m IN <<bad(n), n, o[n], s.res[n], s.inp[n], s.out[n]>>

RECURSIVE Walk(_, _, _, _)
Walk(T, s, es, i) ==
  IF i > Len(es) THEN <<>>
  ELSE LET e == es[i]
           r == ApplyS(T, s, e)
           grew == Len(r.stack) > Len(s.stack)
           bad == IF e.odd # "" THEN <<e.odd>>
                  ELSE IF e.k = "begin" /\ (e.seen # 0) # grew THEN <<"a tick is " \o (IF e.seen # 0 THEN "made" ELSE "refused")>>
                  ELSE IF e.k = "begin" /\ grew /\ e.seen # Top(r) THEN <<"the tick reaches", e.seen, "instead of", Top(r)>>
                  ELSE Obs(T, r, e.obs)
       IN IF bad # <<>> THEN <<i, bad>> ELSE Walk(T, r, es, i + 1)

\* a tree with a subtree is loaded, or a subtree node added: ok exactly if the subtree can be loaded; otherwise nothing changes
Loads(x) ==
  IF x.r \notin {"ok", "error"} THEN <<1, <<x.r>>>>
  ELSE IF (x.r = "ok") # x.valid THEN <<1, <<x.what, "answers", x.r>>>>
  ELSE IF x.r = "error" /\ x.before # x.after THEN <<1, <<x.what, "changes the surrounding tree">>>>
  ELSE <<>>

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Verdict == t = 0 \/ LET x == Traces[t]
                        T == Tree(x.tree)
                    IN PrintT("@E " \o ToJson(<<t, IF "what" \in DOMAIN x THEN Loads(x) ELSE Walk(T, OffS(T), x.events, 1)>>))
=============================================================================
