----------------------------- MODULE ComputeMC ------------------------------
EXTENDS BTCompute, Json

VARIABLES p, s, last
vars == <<p, s, last>>

C(cls, keys, outs, ity, oty) == [cls |-> cls, keys |-> keys, outs |-> outs, ity |-> ity, oty |-> oty, stale |-> FALSE, child |-> 0, val |-> None]
Part(c, vals) == [c |-> c, vals |-> vals, run |-> TRUE]
Slow(c, vals) == [c |-> c, vals |-> vals, run |-> FALSE]
Seq2(f, q) == [i \in 1..Len(q) |-> f[q[i]]]
Ints(q) == [i \in 1..Len(q) |-> I(q[i])]
Floats(q) == [i \in 1..Len(q) |-> F(q[i] * (U \div 4))]
Strs(q) == [i \in 1..Len(q) |-> S(q[i])]
Bools == <<B(TRUE), B(FALSE)>>
Quarters == [i \in 1..25 |-> i - 13]
BinOps == <<"add", "+", "and", "&", "div", "/", "floordiv", "//", "lshift", "<<", "mod", "%", "mul", "*", "or", "|", "pow", "**", "rshift", ">>", "sub", "-", "truediv", "xor", "^">>
UnOps == <<"not", "inv", "~", "neg", "-", "pos", "+", "ceil", "floor", "factorial", "exp", "expm1", "log", "log1p", "log10", "fabs", "sqrt", "acos", "asin", "atan", "acosh", "asinh",
           "atanh", "cos", "sin", "tan", "cosh", "sinh", "tanh", "degrees", "radians", "erf", "erfc", "gamma", "lgamma">>

Some(ty) == CASE ty = "int" -> Ints(<<-7, -2, -1, 0, 1, 2, 3, 5, 64>>)
              [] ty = "float" -> Floats(<<-10, -4, -1, 0, 2, 4, 7, 12>>)
              [] ty = "bool" -> Bools
              [] ty = "str" -> Strs(<<"", "a", "Bc d", "3">>)
Few(ty) == CASE ty = "int" -> Ints(<<0, 1, 2>>) [] ty = "float" -> Floats(<<0, 4, 5>>) [] ty = "bool" -> Bools [] ty = "str" -> Strs(<<"", "a", "B">>)
Lists(ty) == LET v == Few(ty) IN <<L(<<>>), L(<<v[1]>>), L(<<v[2], v[1]>>), L(<<v[1], v[1], v[2]>>)>>
Dicts(ty) == LET v == Few(ty) IN <<D(<<>>, <<>>), D(<<"a">>, <<v[1]>>), D(<<"a", "b">>, <<v[2], v[1]>>)>>
Types == <<"int", "float", "bool", "str">>

Binaries == [i \in 1..(Len(BinOps) * 3) |->
   LET op == BinOps[((i - 1) % Len(BinOps)) + 1]  ty == <<"int", "float", "bool">>[((i - 1) \div Len(BinOps)) + 1]
       v == IF op \in {"pow", "**"} /\ ty = "float" THEN Floats(<<-12, -6, -2, 0, 4, 8, 12>>) ELSE IF op \in {"pow", "**"} /\ ty = "int" THEN Ints(<<-3, -1, 0, 1, 2, 5>>) ELSE Some(ty)
   IN Part(C("Operation", <<"operator", "a", "b">>, <<"result">>, ty, ty), <<<<S(op)>>, v, v>>)]
Unaries == [i \in 1..(Len(UnOps) * 3) |->
   LET op == UnOps[((i - 1) % Len(UnOps)) + 1]  ty == <<"int", "float", "bool">>[((i - 1) \div Len(UnOps)) + 1]
   IN Part(C("UnaryOperation", <<"operator", "in">>, <<"result">>, ty, ty), <<<<S(op)>>, IF ty = "float" THEN Floats(Quarters) ELSE IF ty = "int" THEN Ints(<<-2, -1, 0, 1, 2, 3, 5>>) ELSE Bools>>)]
Converts == [i \in 1..16 |-> LET a == Types[((i - 1) % 4) + 1]  b == Types[((i - 1) \div 4) + 1]
                             IN Part(C("Convert", <<"in">>, <<"out">>, a, b), <<IF a = "float" THEN Floats(Quarters) ELSE Some(a)>>)]
PerType(t) == <<
  Slow(C("Compare", <<"a", "b">>, <<>>, t, t), <<Few(t), Few(t)>>),
  Slow(C("CompareNewOnly", <<"a", "b">>, <<>>, t, t), <<Few(t), Few(t)>>),
  Part(C("ListLength", <<"list">>, <<"length">>, t, t), <<Lists(t)>>),
  Part(C("InsertInList", <<"index", "list", "element">>, <<"list">>, t, t), <<Ints(<<0, 1, 2, 3, 9>>), Lists(t), SubSeq(Few(t), 1, 2)>>),
  Part(C("IsInList", <<"list", "in">>, <<>>, t, t), <<Lists(t), Few(t)>>),
  Part(C("AppendListItem", <<"list", "value">>, <<"new_list">>, t, t), <<Lists(t), Few(t)>>),
  Part(C("SetDictItem", <<"attr_name", "object", "attr_value">>, <<"new_object">>, t, t), <<Strs(<<"a", "b", "">>), Dicts(t), SubSeq(Few(t), 1, 2)>>),
  Slow(C("IOInput", <<"in">>, <<"out">>, t, t), <<Few(t)>>),
  Slow(C("IOOutput", <<"in">>, <<"out">>, t, t), <<Few(t)>>),
  Slow(C("PassthroughNode", <<"in">>, <<"out">>, t, t), <<Few(t)>>),
  Slow([C("Constant", <<>>, <<"constant">>, t, t) EXCEPT !.val = Few(t)[2]], <<>>)>>
Less(t) == Part(C("ALessThanB", <<"a", "b">>, <<>>, t, t), <<Some(t), Some(t)>>)

Time(a, b) == M("builtin_interfaces/Time", <<"sec", "nanosec">>, <<I(a), I(b)>>)
Header(a, b, f) == M("std_msgs/Header", <<"stamp", "frame_id">>, <<Time(a, b), S(f)>>)
Getters(stale, child) ==
  LET g(c) == [c EXCEPT !.stale = stale, !.child = child] IN <<
  Slow(g(C("GetListItem", <<"index", "list">>, <<"item">>, "int", "int")), <<Ints(<<0, 1>>), <<L(<<I(4)>>), L(<<I(5), I(4)>>)>>>>),
  Slow(g(C("GetDictItem", <<"key", "dict">>, <<"value">>, "str", "str")), <<Strs(<<"a", "b">>), <<D(<<"a">>, <<S("x")>>), D(<<"b", "a">>, <<S("x"), S("y")>>)>>>>),
  Slow(g(C("GetMultipleDictItems", <<"keys", "dict">>, <<"values">>, "int", "list")), <<<<L(Strs(<<"a">>)), L(Strs(<<"b", "a", "b">>)), L(<<>>)>>, <<D(<<"a">>, <<I(1)>>), D(<<"b", "a">>, <<I(1), I(2)>>)>>>>),
  Slow(g(C("GetAttr", <<"attr_name", "object">>, <<"attr">>, "std_msgs/Header", "int")), <<Strs(<<"stamp.sec", "stamp.none", "frame_id", "stamp.nanosec">>), <<Header(1, 2, "a"), Header(3, 2, "b")>>>>)>>
Fmt == <<"plain", "{a}", "x{a!u}y{b}", "{{{b!r}}}", "{a!l}{a!c}", "{c}", "{a!x}", "{a", "}", "{b!s}", "{a!r}", "{a!a}", "{a!}", "">>
FmtD(t) == CASE t = "str" -> <<D(<<"a", "b">>, <<S("fOo"), S("B c")>>), D(<<"a">>, <<S("")>>)>>
             [] t = "int" -> <<D(<<"a", "b">>, <<I(-3), I(12)>>), D(<<"b", "a">>, <<B(TRUE), I(0)>>)>>
             [] t = "float" -> <<D(<<"a", "b">>, <<F(U \div 2), F(-5 * U)>>)>>
             [] t = "list" -> <<D(<<"a", "b">>, <<L(Ints(<<1, 2>>)), L(<<>>)>>)>>
Formats(t) == <<
  Part(C("FormatString", <<"format_string", "dict">>, <<"formatted_string">>, t, "str"), <<Strs(Fmt), FmtD(t)>>),
  Part(C("FormatStringList", <<"format_strings", "dict">>, <<"formatted_strings">>, t, "str"),
       <<<<L(<<>>), L(Strs(<<"{a}">>)), L(Strs(<<"{b}", "-{a!u}">>)), L(Strs(<<"{a}", "{c}">>))>>, FmtD(t)>>)>>
Others == <<
  Part(C("StringConcatenation", <<"a", "b">>, <<"formatted_string">>, "str", "str"), <<Some("str"), Some("str")>>),
  Part(C("GetFileExtension", <<"path">>, <<"filename", "extension">>, "str", "str"),
       <<Strs(<<"", "a", "a.b", "a.b.c", ".b", "/x/.b", "/x.y/z", "/x.y/z.w", "a.", "..b", "/a/..b.c", "a/", "file://a.yaml">>)>>),
  Part(C("RandomInt", <<"min", "max">>, <<"random_number">>, "int", "int"), <<Ints(<<-1, 0, 1, 3>>), Ints(<<-1, 0, 1, 3>>)>>),
  Part(C("SetAttr", <<"attr_name", "object", "attr_value">>, <<"new_object">>, "std_msgs/Header", "int"),
       <<Strs(<<"stamp.sec", "stamp.nanosec", "frame_id", "none", "stamp.none", "stamp">>), <<Header(1, 2, "a"), Header(3, 0, "")>>, Ints(<<0, 1, 9>>)>>),
  Part(C("SetAttr", <<"attr_name", "object", "attr_value">>, <<"new_object">>, "std_msgs/Header", "str"),
       <<Strs(<<"stamp.sec", "frame_id", "stamp">>), <<Header(1, 2, "a"), Header(3, 0, "")>>, Strs(<<"a", "new">>)>>),
  Part(C("SetAttr", <<"attr_name", "object", "attr_value">>, <<"new_object">>, "std_msgs/Header", "builtin_interfaces/Time"),
       <<Strs(<<"stamp", "frame_id", "stamp.sec">>), <<Header(1, 2, "a")>>, <<Time(1, 2), Time(5, 6)>>>>),
  Part(C("MessageToFields", <<"in">>, <<"stamp", "frame_id">>, "std_msgs/Header", "any"), <<<<Header(1, 2, "a"), Header(3, 0, "")>>>>),
  Part(C("FieldsToMessage", <<"stamp", "frame_id">>, <<"out">>, "std_msgs/Header", "any"), <<<<Time(1, 2), Time(0, 0)>>, Strs(<<"", "b">>)>>),
  Slow([C("EnumFields", <<>>, <<"FOO", "BAR">>, "ros_bt_py_interfaces/EnumTest", "any") EXCEPT !.val = [None EXCEPT !.keys = <<"FOO", "BAR">>, !.items = <<I(0), I(1)>>]], <<>>),
  Slow(C("YamlList", <<"file_path">>, <<"load_success", "load_error_msg", "content", "line_count">>, "any", "int"), <<Strs(<<"1", "2">>)>>),
  Slow(C("YamlDict", <<"file_path">>, <<"load_success", "load_error_msg", "content">>, "any", "float"), <<Strs(<<"1", "2">>)>>),
  Slow(C("GetTimeNow", <<>>, <<"current_time">>, "any", "any"), <<>>),
  Slow([C("GetTimeNow", <<>>, <<"current_time">>, "any", "any") EXCEPT !.stale = TRUE], <<>>),
  Slow([C("RosParam", <<"param_name", "default_value">>, <<"param">>, "int", "int") EXCEPT !.stale = TRUE], <<Strs(<<"1">>), Ints(<<4>>)>>),
  Slow(C("RosParam", <<"param_name", "default_value">>, <<"param">>, "int", "int"), <<Strs(<<"1", "2">>), Ints(<<4, 7>>)>>),
  Slow(C("RosParam", <<"param_name", "default_value">>, <<"param">>, "float", "float"), <<Strs(<<"1", "2">>), Floats(<<1, 2>>)>>),
  Slow(C("RosParam", <<"param_name", "default_value">>, <<"param">>, "bool", "bool"), <<Strs(<<"1">>), Bools>>)>>
Contents(c) == IF c.cls = "GetTimeNow" THEN <<Time(5, 7), Time(0, 999999999)>>
               ELSE IF c.cls = "RosParam" THEN <<None, I(0), F(U), B(TRUE)>>
               ELSE IF c.cls = "YamlList" THEN <<L(<<I(1), I(2)>>), L(<<I(1), S("x")>>), D(<<"a">>, <<I(1)>>), V("bad", 0, "")>>
               ELSE <<D(<<"a">>, <<I(1)>>), D(<<"a", "b">>, <<F(U), S("x")>>), L(<<I(1)>>), V("bad", 0, "")>>

Parts == Binaries \o Unaries \o Converts \o PerType("int") \o PerType("float") \o PerType("bool") \o PerType("str") \o <<Less("int"), Less("float")>> \o
         Getters(FALSE, 0) \o Getters(TRUE, 0) \o Getters(FALSE, 1) \o Getters(TRUE, 1) \o Formats("str") \o Formats("int") \o Formats("float") \o Formats("list") \o Others
Vecs(vals) == {f \in [1..Len(vals) -> UNION {ToSet(vals[j]) : j \in 1..Len(vals)}] : \A j \in 1..Len(vals) : f[j] \in ToSet(vals[j])}
Runs == [i \in 1..Len(Parts) |-> IF Parts[i].run THEN Vecs(Parts[i].vals) ELSE {}]

Events(i, x) ==
  LET c == Parts[i].c
      on == x.st = "on"
  IN IF x.st \in {"UNINITIALIZED", "SHUTDOWN"} THEN {[k |-> "setup"]}
     ELSE IF x.st = "END" THEN {[k |-> "shutdown"]}
     ELSE {[k |-> k] : k \in {"untick", "reset", "shutdown"}} \cup {[k |-> "run", in |-> f] : f \in Runs[i]} \cup
          (IF Parts[i].run THEN {} ELSE
             {[k |-> "tick", child |-> h] : h \in IF c.child = 1 THEN {"RUNNING", "FAILED", "SUCCEEDED"} ELSE {"SUCCEEDED"}} \cup
             UNION {{[k |-> "put", key |-> c.keys[j], v |-> Parts[i].vals[j][q]] : q \in 1..Len(Parts[i].vals[j])} : j \in 1..Len(c.keys)}) \cup
          (IF Yaml(c) \/ AsksRos(c) THEN {[k |-> "file", p |-> IF c.cls = "GetTimeNow" THEN "clock" ELSE "1", v |-> v] : v \in ToSet(Contents(c))} ELSE {})

Norm(i, x) == LET y == IF x.st \in {"UNINITIALIZED", "SHUTDOWN", "END"} THEN [Off(Parts[i].c, x.st) EXCEPT !.files = x.files]
                       ELSE [x EXCEPT !.st = "on", !.upd = IF Yaml(Parts[i].c) THEN @ ELSE @ \cap Matters(Parts[i].c)]
              IN IF Parts[i].run THEN [y EXCEPT !.in = Off(Parts[i].c, "").in] ELSE y
Seen(n, i, e) == IF n.s.st \in {"END", "SHUTDOWN"} THEN [r |-> n.r]
                 ELSE IF Parts[i].run /\ e.k # "run" THEN [r |-> n.r, out |-> n.s.out] ELSE [r |-> n.r, out |-> n.s.out, in |-> n.s.in]
Shown(i, x) == [part |-> i, c |-> Parts[i].c, st |-> x.st, in |-> x.in, upd |-> x.upd, out |-> x.out, cache |-> x.cache, files |-> {<<q, x.files[q]>> : q \in DOMAIN x.files}]

Init == \E i \in 1..Len(Parts) : p = i /\ s = Off(Parts[i].c, "UNINITIALIZED") /\ last = [k |-> "none"]
Next == \E e \in Events(p, s) :
          LET n == Step(Parts[p].c, s, e)
              m == Norm(p, n.s)
          IN /\ p' = p /\ s' = m /\ last' = [k |-> e.k, r |-> n.r, ch |-> IF e.k = "tick" THEN e.child ELSE ""]
             /\ PrintT("@E " \o ToJson(<<Shown(p, s), e, Seen(n, p, e), Shown(p, m)>>))
Spec == Init /\ [][Next]_vars
View == <<p, s>>

\* what the nodes promise, apart from their functions
Getter(c) == c.cls \in {"GetListItem", "GetDictItem", "GetMultipleDictItems", "GetAttr"}
Fresh == [][LET c == Parts[p].c IN (Getter(c) /\ last'.k = "tick" /\ last'.r = "SUCCEEDED" /\ ~c.stale) => s.upd # {}]_vars
NewOnly == [][Parts[p].c.cls = "CompareNewOnly" /\ last'.k = "tick" /\ s.upd = {} => last'.r \in {"RUNNING", "refused"}]_vars
Child == [][Parts[p].c.child = 1 /\ last'.k = "tick" /\ last'.ch # "SUCCEEDED" => last'.r \in {last'.ch, "refused"}]_vars
Kept == [][last'.k \in {"tick", "run"} /\ last'.r \in {"FAILED", "RUNNING"} /\ ~Yaml(Parts[p].c) => s'.out = s.out]_vars
Once == [][(Yaml(Parts[p].c) \/ AsksRos(Parts[p].c)) /\ last'.k = "file" => s'.out = s.out]_vars
\* what a node tells of its surroundings is what they are now
Current == [][(AsksRos(Parts[p].c) /\ last'.k = "tick" /\ last'.r = "SUCCEEDED") =>
                 s'.out[1] \in {s.files[q] : q \in DOMAIN s.files} \cup ToSet(s.in) \cup {Time(0, 0)} \cup {F(U * v.n) : v \in {w \in {s.files[q] : q \in DOMAIN s.files} : w.t \in {"int", "bool"}}}
                 \/ s'.out = s.out]_vars
InputsKept == [][last'.k = "tick" /\ last'.r # "refused" => s'.in = s.in]_vars
=============================================================================
