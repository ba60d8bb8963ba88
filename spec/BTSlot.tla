------------------------------- MODULE BTSlot -------------------------------
(***************************************************************************)
(* Data slots: types with limits, values, and the life of a slot.          *)
(*                                                                         *)
(* A type is a record                                                      *)
(*   k      kind: bool int float str path bytes list dict                  *)
(*          gtype (a chosen type), rtype (a ROS type), msg, name           *)
(*   lo hi  limits of numbers        mx strict   limit of the length       *)
(*   opt    permitted strings, or permitted types of a gtype (hasopt)      *)
(*   elem   <<element type>> of list and dict, otherwise <<>>              *)
(*   dyn sta isSta   whether the value may be / is given at run time       *)
(*   rk id  kind and number of a ROS interface, mt its message type        *)
(*   ref    for references the key referred to, of = its current value     *)
(* A value is a record with its Python type t and                          *)
(*   n number   s string  l length   items elements  keys of a dictionary  *)
(* Numbers are ranks in an order preserving table kept by the harness.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nums == {"bool", "int", "float"}

\* equality of Python values
RECURSIVE VEq(_, _)
VEq(a, b) ==
  IF a.t \in Nums /\ b.t \in Nums THEN a.n = b.n
  ELSE IF a.t # b.t THEN FALSE
  ELSE /\ a.s = b.s /\ a.n = b.n /\ a.lo = b.lo /\ a.hi = b.hi /\ a.mx = b.mx /\ a.strict = b.strict /\ a.mt = b.mt
       /\ a.keys = b.keys
       /\ Len(a.items) = Len(b.items)
       /\ \A i \in 1..Len(a.items) : VEq(a.items[i], b.items[i])

\* what a reference stands for, given the value of the type slot it refers to
RECURSIVE Chosen(_)
Chosen(g) ==
  [k |-> IF g.t = "rtype" \/ g.s = "object" THEN "msg" ELSE g.s,
   lo |-> g.lo, hi |-> g.hi, mx |-> g.mx, strict |-> g.strict, hasopt |-> FALSE, opt |-> <<>>,
   elem |-> IF Len(g.items) = 0 THEN <<>> ELSE <<Chosen(g.items[1])>>, mt |-> g.mt, rk |-> "msg"]

Plain(k, e, mx) == [k |-> k, lo |-> 0, hi |-> 0, mx |-> mx, strict |-> FALSE, hasopt |-> FALSE, opt |-> <<>>,
                    elem |-> <<e>>, mt |-> "", rk |-> ""]
Resolve(T) ==
  CASE T.k = "ref" -> Chosen(T.of)
    [] T.k = "reflist" -> Plain("list", Chosen(T.of), T.nolimit)
    [] T.k = "refdict" -> Plain("dict", Chosen(T.of), T.nolimit)
    [] OTHER -> T

Has(q, x) == \E i \in 1..Len(q) : q[i] = x
Short(T, n) == n <= T.mx /\ (T.strict => n = T.mx)
Prefixed(v) == v.pre \in {"file", "package"}

\* a well-formed type value all of whose types are permitted
RECURSIVE TypeOf(_, _)
TypeOf(v, opt) == v.t = "gtype" /\ Has(opt, v.s) /\ \A i \in 1..Len(v.items) : TypeOf(v.items[i], opt)

RECURSIVE Adm(_, _)
Adm(T, v) ==
  CASE T.k = "bool" -> v.t = "bool"
    [] T.k = "int" -> v.t \in {"bool", "int"} /\ T.lo <= v.n /\ v.n <= T.hi
    [] T.k = "float" -> v.t \in Nums /\ T.lo <= v.n /\ v.n <= T.hi
    [] T.k = "str" -> v.t = "str" /\ v.l <= T.mx /\ (T.hasopt => Has(T.opt, v.s))
    [] T.k = "path" -> v.t = "str" /\ v.l <= T.mx /\ (T.hasopt => Has(T.opt, v.s)) /\ Prefixed(v)
    [] T.k = "bytes" -> v.t = "bytes" /\ v.l <= T.mx
    [] T.k = "list" -> v.t \in {"list", "array"} /\ Short(T, Len(v.items)) /\ \A i \in 1..Len(v.items) : Adm(T.elem[1], v.items[i])
    [] T.k = "dict" -> v.t = "dict" /\ Short(T, Len(v.items)) /\ \A i \in 1..Len(v.items) : Adm(T.elem[1], v.items[i])
    [] T.k = "gtype" -> TypeOf(v, T.opt)
    [] T.k = "rtype" -> v.t = "rtype" /\ v.rk = (IF T.rk = "comp" THEN "msg" ELSE T.rk)
    [] T.k = "msg" -> v.t = "msg" /\ v.s = T.mt
    [] T.k = "name" -> v.t = "str"
Admits(T, v) == Adm(Resolve(T), v)

\* the value a slot holds after v was accepted: numbers become floats in a float slot, arrays lists
Conv(T, v) ==
  LET R == Resolve(T) IN
  CASE R.k = "float" -> [v EXCEPT !.t = "float"]
    [] R.k = "list" -> [v EXCEPT !.t = "list"]
    [] OTHER -> v

(***************************************************************************)
(* The life of a slot: whether it has a value, the value, and whether it   *)
(* counts as updated.  Each operation maps a state to [ok, st].            *)
(***************************************************************************)
Set(T, st, v) ==
  IF ~Admits(T, v) \/ (T.isSta /\ st.upd) THEN [ok |-> FALSE, st |-> st]
  ELSE LET w == Conv(T, v) IN
       IF st.has /\ VEq(st.val, w) THEN [ok |-> TRUE, st |-> st]
       ELSE [ok |-> TRUE, st |-> [has |-> TRUE, val |-> w, upd |-> TRUE]]

Op(T, st, o) ==
  CASE o.op \in {"set", "read"} -> Set(T, st, o.val)
    [] o.op = "drop" -> [ok |-> TRUE, st |-> IF T.isSta THEN st ELSE [st EXCEPT !.has = FALSE]]
    [] o.op = "flag" -> [ok |-> TRUE, st |-> [st EXCEPT !.upd = TRUE]]
    [] o.op = "unflag" -> [ok |-> TRUE, st |-> [st EXCEPT !.upd = FALSE]]

\* a slot that is created with a value: only the value is fixed
New(T, st, v) == IF Admits(T, v) THEN [ok |-> TRUE, st |-> [has |-> TRUE, val |-> Conv(T, v), upd |-> FALSE]]
                 ELSE [ok |-> FALSE, st |-> st]

SameSt(a, b) == a.has = b.has /\ a.upd = b.upd /\ (a.has => VEq(a.val, b.val) /\ a.val.t = b.val.t)

(***************************************************************************)
(* Compatibility: everything the source admits is admitted by the target.  *)
(***************************************************************************)
RECURSIVE Fits(_, _)
Fits(Tt, Ts) ==
  LET A == Resolve(Tt) B == Resolve(Ts) IN
  CASE A.k \in {"int", "float"} ->
         B.k = A.k /\ A.lo <= B.lo /\ B.hi <= A.hi
    [] A.k \in {"str", "path"} ->
         /\ B.k = A.k
         /\ B.mx <= A.mx \/ (B.hasopt /\ \A i \in 1..Len(B.opt) : B.optlen[i] <= A.mx)
         /\ A.hasopt => B.hasopt /\ \A i \in 1..Len(B.opt) : Has(A.opt, B.opt[i])
    [] A.k = "bytes" -> B.k = "bytes" /\ B.mx <= A.mx
    [] A.k \in {"list", "dict"} ->
         /\ B.k = A.k
         /\ B.mx <= A.mx
         /\ A.strict => B.strict /\ A.mx = B.mx
         /\ Fits(A.elem[1], B.elem[1])
    [] A.k = "gtype" -> B.k = "gtype" /\ \A i \in 1..Len(B.opt) : Has(A.opt, B.opt[i])
    [] A.k = "rtype" -> B.k = "rtype" /\ A.rk = B.rk
    [] A.k = "msg" -> B.k = "msg" /\ A.mt = B.mt
    [] OTHER -> A.k = B.k
=============================================================================
