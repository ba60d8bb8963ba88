----------------------------- MODULE BTCompute ------------------------------
(* Nodes that compute outputs from inputs: what each of them returns and writes for its current inputs, and when.
   Values are records: t (kind), n (number; floats in 1/U), s (text), keys and items (lists, dictionaries, messages).
   A node is described by c: cls, keys (its inputs that change), outs (its outputs), ity and oty (types), stale, child,
   val (a value fixed when the node is made), consts (of a message type), lims (limits of the outputs that are numbers). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, BTMath

V(t, n, x) == [t |-> t, n |-> n, s |-> x, keys |-> <<>>, items |-> <<>>]
None == V("none", 0, "")
Whatever == V("any", 0, "")
I(n) == V("int", n, "")
F(n) == V("float", n, "")
B(b) == V("bool", IF b THEN 1 ELSE 0, "")
S(x) == V("str", 0, x)
L(q) == [V("list", 0, "") EXCEPT !.items = q]
D(ks, q) == [V("dict", 0, "") EXCEPT !.keys = ks, !.items = q]
M(ty, ks, q) == [V("msg", 0, ty) EXCEPT !.keys = ks, !.items = q]
Num(v) == v.t \in {"int", "float", "bool"}

RECURSIVE VEq(_, _)
VEq(a, b) ==
  IF Num(a) /\ Num(b) /\ a.t # "float" /\ b.t # "float" THEN a.n = b.n
  ELSE /\ a.t = b.t /\ a.n = b.n /\ a.s = b.s /\ Len(a.keys) = Len(b.keys) /\ Len(a.items) = Len(b.items)
       /\ IF a.t = "dict" THEN \A i \in 1..Len(a.keys) : \E j \in 1..Len(b.keys) : a.keys[i] = b.keys[j] /\ VEq(a.items[i], b.items[j])
          ELSE a.keys = b.keys /\ \A i \in 1..Len(a.items) : VEq(a.items[i], b.items[i])

RECURSIVE Adm(_, _)
\* a slot of this type takes the value
Adm(ty, v) ==
  CASE ty = "int" -> v.t \in {"int", "bool"}
    [] ty = "float" -> Num(v) \/ v.t = "any"
    [] ty = "any" -> TRUE
    [] OTHER -> ty = v.t \/ v.t = "any" \/ (v.t = "msg" /\ ty = v.s)
Into(ty, v) == IF ty = "float" /\ v.t \in {"int", "bool"} THEN F(v.n * U) ELSE v

(* ------------------------------ text ------------------------------ *)
Ch(x, i) == SubSeq(x, i, i)
From(x, i) == SubSeq(x, i, Len(x))
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
RECURSIVE Map(_, _, _)
Map(x, a, b) == IF x = "" THEN "" ELSE LET p == {i \in 1..Len(a) : Ch(a, i) = Ch(x, 1)}
                                       IN (IF p = {} THEN Ch(x, 1) ELSE Ch(b, CHOOSE i \in p : TRUE)) \o Map(From(x, 2), a, b)
Up(x) == Map(x, Lower, Upper)
Low(x) == Map(x, Upper, Lower)
RECURSIVE Nat2S(_)
Nat2S(n) == (IF n > 9 THEN Nat2S(n \div 10) ELSE "") \o Digits[(n % 10) + 1]
Int2S(n) == IF n < 0 THEN "-" \o Nat2S(-n) ELSE Nat2S(n)
Abs(n) == IF n < 0 THEN -n ELSE n
Quarter == [i \in {0, 1, 2, 3} |-> <<"0", "25", "5", "75">>[i + 1]]
RECURSIVE Text(_), Repr(_), Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
Text(v) == IF v.t = "str" THEN v.s ELSE Repr(v)
Repr(v) ==
  CASE v.t = "str" -> "'" \o v.s \o "'"
    [] v.t = "int" -> Int2S(v.n)
    [] v.t = "bool" -> IF v.n = 1 THEN "True" ELSE "False"
    [] v.t = "float" -> (IF v.n < 0 THEN "-" ELSE "") \o Nat2S(Abs(v.n) \div U) \o "." \o Quarter[(Abs(v.n) % U) \div (U \div 4)]
    [] v.t = "list" -> "[" \o Join([i \in 1..Len(v.items) |-> Repr(v.items[i])], ", ") \o "]"
    [] v.t = "dict" -> "{" \o Join([i \in 1..Len(v.items) |-> "'" \o v.keys[i] \o "': " \o Repr(v.items[i])], ", ") \o "}"
RECURSIVE Find(_, _, _)
\* the first place of c in x from i on, 0 if there is none
Find(x, c, i) == IF i > Len(x) THEN 0 ELSE IF Ch(x, i) = c THEN i ELSE Find(x, c, i + 1)
RECURSIVE LastAt(_, _, _)
LastOf(x, c) == LastAt(x, c, Len(x))
LastAt(x, c, i) == IF i = 0 THEN 0 ELSE IF Ch(x, i) = c THEN i ELSE LastAt(x, c, i - 1)

Key(d, k) == IF \E i \in 1..Len(d.keys) : d.keys[i] = k THEN CHOOSE i \in 1..Len(d.keys) : d.keys[i] = k ELSE 0
Conv(v, how) ==
  CASE how = "" \/ how = "s" -> Text(v)
    [] how = "r" \/ how = "a" -> Repr(v)
    [] how = "u" -> Up(Text(v))
    [] how = "l" -> Low(Text(v))
    [] how = "c" -> IF Text(v) = "" THEN "" ELSE Up(Ch(Text(v), 1)) \o Low(From(Text(v), 2))
\* <<text>>, or <<>> when the format string makes no sense or names something unknown
RECURSIVE Format(_, _)
Format(x, d) ==
  IF x = "" THEN <<"">>
  ELSE LET c == Ch(x, 1)
           rest(t, n) == LET r == Format(From(x, n), d) IN IF r = <<>> THEN <<>> ELSE <<t \o r[1]>>
       IN IF c \notin {"{", "}"} THEN rest(c, 2)
          ELSE IF Len(x) > 1 /\ Ch(x, 2) = c THEN rest(c, 3)
          ELSE IF c = "}" \/ Find(x, "}", 2) = 0 THEN <<>>
          ELSE LET e == Find(x, "}", 2)
                   f == SubSeq(x, 2, e - 1)
                   b == Find(f, "!", 1)
                   name == IF b = 0 THEN f ELSE SubSeq(f, 1, b - 1)
                   how == IF b = 0 THEN "" ELSE From(f, b + 1)
                   k == Key(d, name)
               IN IF k = 0 \/ name = "" \/ how \notin {"", "s", "r", "a", "u", "l", "c"} \/ (b # 0 /\ how = "") THEN <<>>
                  ELSE rest(Conv(d.items[k], how), e + 1)

\* name and extension of a path
Split(x) ==
  LET dot == LastOf(x, ".")
      slash == LastOf(x, "/")
  IN IF dot <= slash + 1 \/ \A i \in (slash + 1)..(dot - 1) : Ch(x, i) = "." THEN <<x, "">>
     ELSE <<SubSeq(x, 1, dot - 1), From(x, dot)>>

(* ------------------------------ messages ------------------------------ *)
RECURSIVE Names(_)
Names(x) == LET p == Find(x, ".", 1) IN IF p = 0 THEN <<x>> ELSE <<SubSeq(x, 1, p - 1)>> \o Names(From(x, p + 1))
RECURSIVE Follow(_, _)
Follow(v, q) == IF q = <<>> THEN <<v>> ELSE IF v.t # "msg" THEN <<>> ELSE LET k == Key(v, q[1]) IN IF k = 0 THEN <<>> ELSE Follow(v.items[k], Tail(q))
RECURSIVE Put(_, _, _)
Put(v, q, w) == LET k == Key(v, q[1]) IN [v EXCEPT !.items[k] = IF Len(q) = 1 THEN w ELSE Put(@, Tail(q), w)]

(* ------------------------------ functions ------------------------------ *)
Ok(q) == [r |-> "SUCCEEDED", set |-> q]
Says(b) == [r |-> IF b THEN "SUCCEEDED" ELSE "FAILED", set |-> <<>>]
Fails == Says(FALSE)
Refused == [r |-> "refused", set |-> <<>>]
\* one output of type ty
Out(ty, k, v) == IF v # <<>> /\ Adm(ty, v[1]) THEN Ok(<<<<k, Into(ty, v[1])>>>>) ELSE Refused

Convert(ity, oty, v) ==
  CASE ity = oty -> <<v>>
    [] oty = "str" -> <<S(Text(v))>>
    [] ity = "int" /\ oty = "bool" -> <<B(v.n # 0)>>
    [] ity = "bool" /\ oty = "int" -> <<I(v.n)>>
    [] ity = "int" /\ oty = "float" -> <<F(v.n * U)>>
    [] ity = "float" /\ oty = "int" -> <<I(IF v.n < 0 THEN -((-v.n) \div U) ELSE v.n \div U)>>
Convertible(ity, oty) == ity = oty \/ oty = "str" \/ <<ity, oty>> \in {<<"int", "bool">>, <<"bool", "int">>, <<"int", "float">>, <<"float", "int">>}

Binary(op, ty, a, b) ==
  LET fl == ty = "float"
      w(n) == IF fl THEN <<F(n)>> ELSE <<I(n)>>      \* numbers of the type; sums of truth values are numbers
      bits(n) == IF ty = "bool" THEN <<B(n = 1)>> ELSE <<I(n)>>
      x == a.n
      y == b.n
  IN CASE op \in {"add", "+"} -> w(x + y)
       [] op \in {"sub", "-"} -> w(x - y)
       [] op \in {"mul", "*"} -> w(IF fl THEN (x * y) \div U ELSE x * y)
       [] op \in {"div", "/", "truediv"} -> IF y = 0 THEN <<>> ELSE IF fl THEN <<F(FloorDiv(x * U, y))>> ELSE <<F(FloorDiv(x * U, y))>>
       [] op \in {"floordiv", "//"} -> IF y = 0 THEN <<>> ELSE w(FloorDiv(x, y) * (IF fl THEN U ELSE 1))
       [] op \in {"mod", "%"} -> IF y = 0 THEN <<>> ELSE w(x - y * FloorDiv(x, y))
       [] op \in {"pow", "**"} ->
            IF fl THEN FPow(x, y) ELSE IF y >= 0 THEN (IF Abs(x) > 1 /\ y > 30 THEN <<>> ELSE <<I(IntPow(x, y))>>) ELSE IF x = 0 THEN <<>> ELSE <<F(0)>>
       [] op \in {"and", "&"} -> IF fl THEN <<>> ELSE bits(BitAnd(x, y))
       [] op \in {"or", "|"} -> IF fl THEN <<>> ELSE bits(x + y - BitAnd(x, y))
       [] op \in {"xor", "^"} -> IF fl THEN <<>> ELSE bits(x + y - 2 * BitAnd(x, y))
       [] op \in {"lshift", "<<"} -> IF fl \/ y < 0 \/ (y > 30 /\ x # 0) THEN <<>> ELSE <<I(IF x = 0 THEN 0 ELSE x * 2 ^ y)>>
       [] op \in {"rshift", ">>"} -> IF fl \/ y < 0 THEN <<>> ELSE <<I(IF y > 30 THEN (IF x < 0 THEN -1 ELSE 0) ELSE x \div 2 ^ y)>>

Unary(op, ty, v) ==
  LET fl == ty = "float"
      one == IF fl THEN U ELSE 1
      x == v.n
  IN CASE op = "not" -> <<B(x = 0)>>
       [] op \in {"inv", "~"} -> IF fl THEN <<>> ELSE <<I(-x - 1)>>
       [] op \in {"neg", "-"} -> IF fl THEN <<F(-x)>> ELSE <<I(-x)>>
       [] op \in {"pos", "+"} -> IF fl THEN <<F(x)>> ELSE <<I(x)>>
       [] op = "ceil" -> <<I(-((-x) \div one))>>
       [] op = "floor" -> <<I(x \div one)>>
       [] op = "factorial" -> IF fl \/ x < 0 \/ x > 20 THEN <<>> ELSE IF x > 12 THEN <<>> ELSE <<I(Fact(x))>>
       [] OTHER -> LET e == Table(op, x * (U \div one)) IN IF e = <<>> THEN <<>> ELSE <<F(e[1])>>

\* what class c does with the inputs i when it is ticked; up: some of the inputs that matter changed
Compute(c, i, up) ==
  LET in(k) == i[CHOOSE j \in 1..Len(c.keys) : c.keys[j] = k]
      get(v, k) == IF v = <<>> THEN Fails      \* a getter
                   ELSE IF up \/ c.stale THEN Out(c.oty, k, v) ELSE [r |-> "RUNNING", set |-> <<>>]
  IN CASE c.cls = "Compare" -> Says(VEq(in("a"), in("b")))
       [] c.cls = "CompareNewOnly" -> IF up THEN Says(VEq(in("a"), in("b"))) ELSE [r |-> "RUNNING", set |-> <<>>]
       [] c.cls = "ALessThanB" -> Says(in("a").n < in("b").n)
       [] c.cls = "Convert" -> Out(c.oty, "out", Convert(c.ity, c.oty, in("in")))
       [] c.cls = "Operation" -> Out(c.ity, "result", Binary(in("operator").s, c.ity, in("a"), in("b")))
       [] c.cls = "UnaryOperation" -> Out(c.ity, "result", Unary(in("operator").s, c.ity, in("in")))
       [] c.cls = "ListLength" -> Ok(<<<<"length", I(Len(in("list").items))>>>>)
       [] c.cls = "InsertInList" -> LET q == in("list").items
                                        p == IF in("index").n > Len(q) THEN Len(q) ELSE in("index").n
                                    IN Ok(<<<<"list", L(SubSeq(q, 1, p) \o <<in("element")>> \o SubSeq(q, p + 1, Len(q)))>>>>)
       [] c.cls = "IsInList" -> Says(\E j \in 1..Len(in("list").items) : VEq(in("list").items[j], in("in")))
       [] c.cls = "AppendListItem" -> Ok(<<<<"new_list", L(Append(in("list").items, in("value")))>>>>)
       [] c.cls = "SetDictItem" -> LET d == in("object")
                                       k == Key(d, in("attr_name").s)
                                   IN Ok(<<<<"new_object", IF k # 0 THEN [d EXCEPT !.items[k] = in("attr_value")]
                                                           ELSE D(Append(d.keys, in("attr_name").s), Append(d.items, in("attr_value")))>>>>)
       [] c.cls = "GetListItem" -> LET q == in("list").items IN get(IF in("index").n < Len(q) THEN <<q[in("index").n + 1]>> ELSE <<>>, "item")
       [] c.cls = "GetDictItem" -> LET d == in("dict") IN get(IF Key(d, in("key").s) = 0 THEN <<>> ELSE <<d.items[Key(d, in("key").s)]>>, "value")
       [] c.cls = "GetMultipleDictItems" -> LET d == in("dict")
                                                ks == in("keys").items
                                            IN IF \E j \in 1..Len(ks) : Key(d, ks[j].s) = 0 THEN Fails
                                               ELSE get(<<L([j \in 1..Len(ks) |-> d.items[Key(d, ks[j].s)]])>>, "values")
       [] c.cls = "GetAttr" -> get(Follow(in("object"), Names(in("attr_name").s)), "attr")
       [] c.cls = "SetAttr" -> LET q == Names(in("attr_name").s)
                                   o == Follow(in("object"), q)
                                   w == in("attr_value")
                               IN IF o = <<>> THEN Refused
                                  ELSE IF ~(w.t = o[1].t /\ (w.t = "msg" => w.s = o[1].s)) THEN [Refused EXCEPT !.r = "open"]     \* not checked by ROS
                                  ELSE Ok(<<<<"new_object", Put(in("object"), q, w)>>>>)
       [] c.cls = "StringConcatenation" -> Ok(<<<<"formatted_string", S(in("a").s \o in("b").s)>>>>)
       [] c.cls = "FormatString" -> LET t == Format(in("format_string").s, in("dict")) IN IF t = <<>> THEN Refused ELSE Ok(<<<<"formatted_string", S(t[1])>>>>)
       [] c.cls = "FormatStringList" -> LET q == in("format_strings").items
                                            t == [j \in 1..Len(q) |-> Format(q[j].s, in("dict"))]
                                        IN IF \E j \in 1..Len(q) : t[j] = <<>> THEN Refused
                                           ELSE Ok(<<<<"formatted_strings", L([j \in 1..Len(q) |-> S(t[j][1])])>>>>)
       [] c.cls = "GetFileExtension" -> LET p == Split(in("path").s) IN Ok(<<<<"filename", S(p[1])>>, <<"extension", S(p[2])>>>>)
       [] c.cls = "Constant" -> Ok(<<<<"constant", c.val>>>>)
       [] c.cls \in {"IOInput", "IOOutput", "PassthroughNode"} -> Ok(<<<<"out", in("in")>>>>)
       [] c.cls = "RandomInt" -> IF in("min").n < in("max").n THEN Ok(<<<<"random_number", [V("range", 0, "") EXCEPT !.items = <<in("min"), in("max")>>]>>>>) ELSE Refused
       [] c.cls = "EnumFields" -> Ok([j \in 1..Len(c.val.keys) |-> <<c.val.keys[j], c.val.items[j]>>])
       [] c.cls = "MessageToFields" -> Ok([j \in 1..Len(in("in").keys) |-> <<in("in").keys[j], in("in").items[j]>>])
       [] c.cls = "FieldsToMessage" -> Ok(<<<<"out", M(c.ity, c.keys, i)>>>>)

Matters(c) == CASE c.cls \in {"Compare", "CompareNewOnly"} -> {"a", "b"}
                [] c.cls = "GetListItem" -> {"list", "index"}
                [] c.cls = "GetDictItem" -> {"dict", "key"}
                [] c.cls = "GetMultipleDictItems" -> {"dict", "keys"}
                [] c.cls = "GetAttr" -> {"object", "attr_name"}
                [] OTHER -> {}

(* Files: what is at a path: v, a value; "bad", no document at all; or nothing. A file is read once and again when its path changes. *)
Load(c, i, files) ==
  LET p == i[1].s
      v == IF p \in DOMAIN files THEN files[p] ELSE None
      want == IF c.cls = "YamlList" THEN "list" ELSE "dict"
      no == [r |-> "FAILED", set |-> <<<<"load_success", B(FALSE)>>, <<"load_error_msg", Whatever>>>>]
  IN IF v.t # want THEN no
     ELSE IF \E j \in 1..Len(v.items) : ~Adm(c.oty, v.items[j]) THEN Refused
     ELSE Ok(<<<<"load_success", B(TRUE)>>, <<"load_error_msg", S("")>>, <<"content", [v EXCEPT !.items = [j \in 1..Len(@) |-> Into(c.oty, @[j])]]>>>> \o
             (IF c.cls = "YamlList" THEN <<<<"line_count", I(Len(v.items))>>>> ELSE <<>>))
Yaml(c) == c.cls \in {"YamlList", "YamlDict"}
(* The ROS node a node belongs to: its clock and its parameters, kept as files are. A parameter that is declared may have no value.
   c.stale: there is no ROS node. *)
RosRead(c, i, files) ==
  IF c.cls = "GetTimeNow" THEN Ok(<<<<"current_time", IF "clock" \in DOMAIN files THEN files["clock"] ELSE M("builtin_interfaces/Time", <<"sec", "nanosec">>, <<I(0), I(0)>>)>>>>)
  ELSE IF i[1].s \notin DOMAIN files THEN Fails
  ELSE LET v == files[i[1].s] IN Out(c.oty, "param", <<IF v.t = "none" THEN i[2] ELSE v>>)
AsksRos(c) == c.cls \in {"GetTimeNow", "RosParam"}

(* ------------------------------ the life of a node ------------------------------ *)
Off(c, st) == [st |-> st, in |-> [j \in 1..Len(c.keys) |-> None], upd |-> {}, out |-> [j \in 1..Len(c.outs) |-> None], cache |-> "", files |-> [p \in {} |-> None]]
All(c) == ToSet(c.keys)
R(s, r) == [s |-> s, r |-> r]
Index(c, k) == CHOOSE j \in 1..Len(c.keys) : c.keys[j] = k
Written(c, out, q) == [j \in 1..Len(c.outs) |-> IF \E k \in 1..Len(q) : q[k][1] = c.outs[j]
                                                THEN LET v == q[CHOOSE k \in 1..Len(q) : q[k][1] = c.outs[j]][2]
                                                     IN IF out[j].t # "none" /\ VEq(out[j], v) THEN out[j] ELSE v
                                                ELSE out[j]]
SetIn(c, s, k, v) == LET j == Index(c, k) IN IF s.in[j].t # "none" /\ VEq(s.in[j], v) THEN s
                                             ELSE [s EXCEPT !.in[j] = v, !.upd = @ \cup {k}]
End(c, s) == [Off(c, "END") EXCEPT !.files = s.files]

Tick(c, s, child) ==
  LET u == s.upd \cap Matters(c) # {}
      cache == IF "file_path" \in s.upd THEN "" ELSE s.cache
      o == IF Yaml(c) THEN (IF cache # "" THEN [r |-> cache, set |-> <<>>] ELSE Load(c, s.in, s.files)) ELSE IF AsksRos(c) THEN RosRead(c, s.in, s.files) ELSE Compute(c, s.in, u)
  IN IF \E j \in 1..Len(s.in) : s.in[j].t = "none" THEN R(End(c, s), "refused")
     ELSE IF c.child = 1 /\ child \in {"RUNNING", "FAILED"} THEN R([s EXCEPT !.st = child, !.upd = {}], child)
     ELSE IF o.r \in {"refused", "open"} THEN R(End(c, s), o.r)
     ELSE R([s EXCEPT !.st = o.r, !.upd = {}, !.out = Written(c, @, o.set), !.cache = IF Yaml(c) THEN o.r ELSE ""], o.r)

RECURSIVE Sets(_, _, _, _)
Sets(c, s, q, j) == IF j > Len(q) THEN s ELSE Sets(c, SetIn(c, s, c.keys[j], q[j]), q, j + 1)

Step(c, s, e) ==
  CASE e.k = "setup" -> IF (c.cls = "Convert" /\ ~Convertible(c.ity, c.oty)) \/ (AsksRos(c) /\ c.stale) THEN R(End(c, s), "refused")
                        ELSE R([Off(c, "IDLE") EXCEPT !.upd = All(c), !.files = s.files], "IDLE")
    [] e.k = "shutdown" -> R([s EXCEPT !.st = "SHUTDOWN"], "SHUTDOWN")
    [] e.k = "untick" -> R([s EXCEPT !.st = "IDLE"], "IDLE")
    [] e.k = "reset" -> R([s EXCEPT !.st = "IDLE", !.upd = All(c), !.out = Off(c, "").out, !.cache = ""], "IDLE")
    [] e.k = "put" -> R(SetIn(c, s, e.key, e.v), "")
    [] e.k = "file" -> R([s EXCEPT !.files = (e.p :> e.v) @@ @], "")
    [] e.k = "tick" -> Tick(c, s, e.child)
    [] e.k = "run" -> Tick(c, Sets(c, s, e.in, 1), "SUCCEEDED")       \* all inputs are set, then the node is ticked

\* outputs that were observed agree with those specified; a number that was computed may be off by the smallest step
RECURSIVE Same(_, _)
Same(v, o) ==
  CASE v.t = "any" -> TRUE
    [] v.t = "range" -> o.t = "int" /\ v.items[1].n <= o.n /\ o.n <= v.items[2].n
    [] v.t = "float" /\ o.t \in {"int", "bool"} -> v.n = U * o.n
    [] v.t = "float" /\ o.t \notin {"int", "bool"} -> o.t = "float" /\ Abs(v.n - o.n) <= 1
    [] v.t = "list" -> o.t = "list" /\ Len(v.items) = Len(o.items) /\ \A i \in 1..Len(v.items) : Same(v.items[i], o.items[i])
    [] v.t = "dict" -> o.t = "dict" /\ Len(v.keys) = Len(o.keys)
                       /\ \A i \in 1..Len(v.keys) : \E j \in 1..Len(o.keys) : v.keys[i] = o.keys[j] /\ Same(v.items[i], o.items[j])
    [] OTHER -> VEq(v, o) /\ (v.t = o.t \/ {v.t, o.t} = {"int", "bool"})
=============================================================================
