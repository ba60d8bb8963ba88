----------------------------- MODULE BTMessages -----------------------------
(***************************************************************************)
(* The message form of types.  A message is a record                       *)
(*   tid     type identifier (by name)     vt  identifiers of the element  *)
(*           types, innermost first        imx istr  their limits          *)
(*   dyn sta isSta opt lo hi smx ref rk id mt                              *)
(* lo and hi are <<>> when the text is empty, <<-8>> when it is no       *)
(* number of the type, and <<rank>> otherwise.                             *)
(***************************************************************************)
EXTENDS BTSlot

Identifier(T) ==
  CASE T.k \in {"bool", "int", "float", "str", "path", "bytes", "list", "dict", "ref", "reflist", "refdict", "gtype", "rtype", "msg", "name"} -> T.k
NoMsg == [tid |-> "", vt |-> <<>>, dyn |-> FALSE, sta |-> FALSE, isSta |-> FALSE, opt |-> <<>>, lo |-> <<>>, hi |-> <<>>,
          smx |-> 0, imx |-> <<>>, istr |-> <<>>, ref |-> "", rk |-> "", id |-> 0, mt |-> ""]

RECURSIVE Body(_)
Body(T) ==
  CASE T.k = "bool" -> [NoMsg EXCEPT !.tid = T.k]
    [] T.k \in {"int", "float"} -> [NoMsg EXCEPT !.tid = T.k, !.lo = <<T.lo>>, !.hi = <<T.hi>>]
    [] T.k \in {"str", "path", "bytes"} -> [NoMsg EXCEPT !.tid = T.k, !.smx = T.mx, !.opt = IF T.hasopt THEN T.opt ELSE <<>>]
    [] T.k \in {"list", "dict"} ->
         LET e == Body(T.elem[1]) IN
         [e EXCEPT !.tid = T.k, !.vt = Append(@, e.tid), !.imx = Append(@, T.mx), !.istr = Append(@, T.strict)]
    [] T.k = "gtype" -> [NoMsg EXCEPT !.tid = T.k, !.opt = T.opt]
    [] T.k \in {"rtype", "name"} -> [NoMsg EXCEPT !.tid = T.k, !.rk = T.rk, !.id = T.id]
    [] T.k = "msg" -> [NoMsg EXCEPT !.tid = T.k, !.rk = "msg", !.id = T.id, !.mt = T.mt]
    [] T.k \in {"ref", "reflist", "refdict"} -> [NoMsg EXCEPT !.tid = T.k, !.ref = T.ref]
ToMsg(T) == [Body(T) EXCEPT !.dyn = T.dyn, !.sta = T.sta, !.isSta = T.isSta]

Base(m) == [k |-> m.tid, lo |-> 0, hi |-> 0, mx |-> 0, strict |-> FALSE, hasopt |-> FALSE, opt |-> <<>>, elem |-> <<>>,
            dyn |-> m.dyn, sta |-> m.sta, isSta |-> m.isSta, rk |-> m.rk, id |-> m.id, mt |-> m.mt, ref |-> m.ref]
Flags(m) == (m.dyn \/ m.sta) /\ (m.isSta => m.sta) /\ (~m.isSta => m.dyn)

\* <<type>> if the message describes one, otherwise <<>>
RECURSIVE FromMsg(_)
FromMsg(m) ==
  IF ~Flags(m) THEN <<>> ELSE
  CASE m.tid = "bool" -> <<Base(m)>>
    [] m.tid \in {"int", "float"} ->
         IF m.lo \in {<<>>, <<-8>>} \/ m.hi \in {<<>>, <<-8>>} THEN <<>>
         ELSE IF m.lo[1] > m.hi[1] THEN <<>> ELSE <<[Base(m) EXCEPT !.lo = m.lo[1], !.hi = m.hi[1]]>>
    [] m.tid \in {"str", "path", "bytes"} ->
         <<[Base(m) EXCEPT !.mx = m.smx, !.hasopt = Len(m.opt) > 0, !.opt = m.opt]>>
    [] m.tid \in {"list", "dict"} ->
         LET a == Len(m.vt) b == Len(m.imx) c == Len(m.istr) IN
         IF a = 0 \/ b = 0 \/ c = 0 THEN <<>>
         ELSE LET e == FromMsg([m EXCEPT !.tid = m.vt[a], !.vt = SubSeq(m.vt, 1, a - 1),
                                         !.imx = SubSeq(@, 1, b - 1), !.istr = SubSeq(@, 1, c - 1)])
              IN IF e = <<>> THEN <<>> ELSE <<[Base(m) EXCEPT !.mx = m.imx[b], !.strict = m.istr[c], !.elem = e]>>
    [] m.tid = "gtype" -> IF m.dyn \/ Len(m.opt) = 0 THEN <<>> ELSE <<[Base(m) EXCEPT !.hasopt = TRUE, !.opt = m.opt]>>
    [] m.tid = "rtype" -> IF m.dyn \/ m.rk = "none" THEN <<>> ELSE <<Base(m)>>
    [] m.tid = "name" -> IF m.rk \notin {"msg", "srv", "action"} THEN <<>> ELSE <<Base(m)>>
    [] m.tid = "msg" -> IF m.rk # "msg" \/ m.mt = "" THEN <<>> ELSE <<Base(m)>>
    [] m.tid \in {"ref", "reflist", "refdict"} -> <<Base(m)>>
    [] OTHER -> <<>>

RECURSIVE Deep(_)
Deep(T) == IF T.k \in {"ref", "reflist", "refdict"} THEN TRUE ELSE Len(T.elem) > 0 /\ Deep(T.elem[1])
=============================================================================
