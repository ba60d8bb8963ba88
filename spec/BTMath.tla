------------------------------- MODULE BTMath -------------------------------
(* Numbers. Those that are not integers are counted in 1/U; Table gives functions at multiples of a quarter up to 3,
   rounded, where they are defined (computed with thirty digits by mpmath, not by the code that is checked). *)
EXTENDS Integers, TLC

U == 4096
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE IntPow(_, _)
IntPow(x, n) == IF n = 0 THEN 1 ELSE x * IntPow(x, n - 1)
RECURSIVE BitAnd(_, _)
\* of two's complement numbers
BitAnd(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = -1 THEN b ELSE IF b = -1 THEN a ELSE (a % 2) * (b % 2) + 2 * BitAnd(a \div 2, b \div 2)
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN U ELSE (Power(x, n - 1) * x) \div U
\* whole exponents; the root of a negative number is none
FPow(x, y) ==
  IF y % U # 0 THEN (IF x < 0 \/ (x = 0 /\ y < 0) THEN <<>> ELSE <<[t |-> "any", n |-> 0, s |-> "", keys |-> <<>>, items |-> <<>>]>>)
  ELSE IF y >= 0 THEN <<[t |-> "float", n |-> Power(x, y \div U), s |-> "", keys |-> <<>>, items |-> <<>>]>>
  ELSE IF x = 0 THEN <<>>
  ELSE <<[t |-> "float", n |-> FloorDiv(U * U, Power(x, (-y) \div U)), s |-> "", keys |-> <<>>, items |-> <<>>]>>

Values(op) ==
  CASE op = "exp" -> (-12288 :> 204) @@ (-11264 :> 262) @@ (-10240 :> 336) @@ (-9216 :> 432) @@ (-8192 :> 554) @@ (-7168 :> 712) @@ (-6144 :> 914) @@ (-5120 :> 1174) @@ (-4096 :> 1507) @@ (-3072 :> 1935) @@ (-2048 :> 2484) @@ (-1024 :> 3190) @@ (0 :> 4096) @@ (1024 :> 5259) @@ (2048 :> 6753) @@ (3072 :> 8671) @@ (4096 :> 11134) @@ (5120 :> 14296) @@ (6144 :> 18357) @@ (7168 :> 23571) @@ (8192 :> 30266) @@ (9216 :> 38862) @@ (10240 :> 49899) @@ (11264 :> 64072) @@ (12288 :> 82270)
    [] op = "expm1" -> (-12288 :> -3892) @@ (-11264 :> -3834) @@ (-10240 :> -3760) @@ (-9216 :> -3664) @@ (-8192 :> -3542) @@ (-7168 :> -3384) @@ (-6144 :> -3182) @@ (-5120 :> -2922) @@ (-4096 :> -2589) @@ (-3072 :> -2161) @@ (-2048 :> -1612) @@ (-1024 :> -906) @@ (0 :> 0) @@ (1024 :> 1163) @@ (2048 :> 2657) @@ (3072 :> 4575) @@ (4096 :> 7038) @@ (5120 :> 10200) @@ (6144 :> 14261) @@ (7168 :> 19475) @@ (8192 :> 26170) @@ (9216 :> 34766) @@ (10240 :> 45803) @@ (11264 :> 59976) @@ (12288 :> 78174)
    [] op = "log" -> (1024 :> -5678) @@ (2048 :> -2839) @@ (3072 :> -1178) @@ (4096 :> 0) @@ (5120 :> 914) @@ (6144 :> 1661) @@ (7168 :> 2292) @@ (8192 :> 2839) @@ (9216 :> 3322) @@ (10240 :> 3753) @@ (11264 :> 4144) @@ (12288 :> 4500)
    [] op = "log1p" -> (-3072 :> -5678) @@ (-2048 :> -2839) @@ (-1024 :> -1178) @@ (0 :> 0) @@ (1024 :> 914) @@ (2048 :> 1661) @@ (3072 :> 2292) @@ (4096 :> 2839) @@ (5120 :> 3322) @@ (6144 :> 3753) @@ (7168 :> 4144) @@ (8192 :> 4500) @@ (9216 :> 4828) @@ (10240 :> 5131) @@ (11264 :> 5414) @@ (12288 :> 5678)
    [] op = "log10" -> (1024 :> -2466) @@ (2048 :> -1233) @@ (3072 :> -512) @@ (4096 :> 0) @@ (5120 :> 397) @@ (6144 :> 721) @@ (7168 :> 995) @@ (8192 :> 1233) @@ (9216 :> 1443) @@ (10240 :> 1630) @@ (11264 :> 1800) @@ (12288 :> 1954)
    [] op = "fabs" -> (-12288 :> 12288) @@ (-11264 :> 11264) @@ (-10240 :> 10240) @@ (-9216 :> 9216) @@ (-8192 :> 8192) @@ (-7168 :> 7168) @@ (-6144 :> 6144) @@ (-5120 :> 5120) @@ (-4096 :> 4096) @@ (-3072 :> 3072) @@ (-2048 :> 2048) @@ (-1024 :> 1024) @@ (0 :> 0) @@ (1024 :> 1024) @@ (2048 :> 2048) @@ (3072 :> 3072) @@ (4096 :> 4096) @@ (5120 :> 5120) @@ (6144 :> 6144) @@ (7168 :> 7168) @@ (8192 :> 8192) @@ (9216 :> 9216) @@ (10240 :> 10240) @@ (11264 :> 11264) @@ (12288 :> 12288)
    [] op = "sqrt" -> (0 :> 0) @@ (1024 :> 2048) @@ (2048 :> 2896) @@ (3072 :> 3547) @@ (4096 :> 4096) @@ (5120 :> 4579) @@ (6144 :> 5017) @@ (7168 :> 5418) @@ (8192 :> 5793) @@ (9216 :> 6144) @@ (10240 :> 6476) @@ (11264 :> 6792) @@ (12288 :> 7094)
    [] op = "acos" -> (-4096 :> 12868) @@ (-3072 :> 9908) @@ (-2048 :> 8579) @@ (-1024 :> 7469) @@ (0 :> 6434) @@ (1024 :> 5399) @@ (2048 :> 4289) @@ (3072 :> 2960) @@ (4096 :> 0)
    [] op = "asin" -> (-4096 :> -6434) @@ (-3072 :> -3474) @@ (-2048 :> -2145) @@ (-1024 :> -1035) @@ (0 :> 0) @@ (1024 :> 1035) @@ (2048 :> 2145) @@ (3072 :> 3474) @@ (4096 :> 6434)
    [] op = "atan" -> (-12288 :> -5116) @@ (-11264 :> -5005) @@ (-10240 :> -4875) @@ (-9216 :> -4721) @@ (-8192 :> -4535) @@ (-7168 :> -4308) @@ (-6144 :> -4026) @@ (-5120 :> -3670) @@ (-4096 :> -3217) @@ (-3072 :> -2636) @@ (-2048 :> -1899) @@ (-1024 :> -1003) @@ (0 :> 0) @@ (1024 :> 1003) @@ (2048 :> 1899) @@ (3072 :> 2636) @@ (4096 :> 3217) @@ (5120 :> 3670) @@ (6144 :> 4026) @@ (7168 :> 4308) @@ (8192 :> 4535) @@ (9216 :> 4721) @@ (10240 :> 4875) @@ (11264 :> 5005) @@ (12288 :> 5116)
    [] op = "acosh" -> (4096 :> 0) @@ (5120 :> 2839) @@ (6144 :> 3942) @@ (7168 :> 4746) @@ (8192 :> 5394) @@ (9216 :> 5942) @@ (10240 :> 6418) @@ (11264 :> 6840) @@ (12288 :> 7220)
    [] op = "asinh" -> (-12288 :> -7448) @@ (-11264 :> -7112) @@ (-10240 :> -6747) @@ (-9216 :> -6349) @@ (-8192 :> -5913) @@ (-7168 :> -5431) @@ (-6144 :> -4894) @@ (-5120 :> -4291) @@ (-4096 :> -3610) @@ (-3072 :> -2839) @@ (-2048 :> -1971) @@ (-1024 :> -1014) @@ (0 :> 0) @@ (1024 :> 1014) @@ (2048 :> 1971) @@ (3072 :> 2839) @@ (4096 :> 3610) @@ (5120 :> 4291) @@ (6144 :> 4894) @@ (7168 :> 5431) @@ (8192 :> 5913) @@ (9216 :> 6349) @@ (10240 :> 6747) @@ (11264 :> 7112) @@ (12288 :> 7448)
    [] op = "atanh" -> (-3072 :> -3985) @@ (-2048 :> -2250) @@ (-1024 :> -1046) @@ (0 :> 0) @@ (1024 :> 1046) @@ (2048 :> 2250) @@ (3072 :> 3985)
    [] op = "cos" -> (-12288 :> -4055) @@ (-11264 :> -3786) @@ (-10240 :> -3281) @@ (-9216 :> -2573) @@ (-8192 :> -1705) @@ (-7168 :> -730) @@ (-6144 :> 290) @@ (-5120 :> 1292) @@ (-4096 :> 2213) @@ (-3072 :> 2997) @@ (-2048 :> 3595) @@ (-1024 :> 3969) @@ (0 :> 4096) @@ (1024 :> 3969) @@ (2048 :> 3595) @@ (3072 :> 2997) @@ (4096 :> 2213) @@ (5120 :> 1292) @@ (6144 :> 290) @@ (7168 :> -730) @@ (8192 :> -1705) @@ (9216 :> -2573) @@ (10240 :> -3281) @@ (11264 :> -3786) @@ (12288 :> -4055)
    [] op = "sin" -> (-12288 :> -578) @@ (-11264 :> -1563) @@ (-10240 :> -2451) @@ (-9216 :> -3187) @@ (-8192 :> -3724) @@ (-7168 :> -4030) @@ (-6144 :> -4086) @@ (-5120 :> -3887) @@ (-4096 :> -3447) @@ (-3072 :> -2792) @@ (-2048 :> -1964) @@ (-1024 :> -1013) @@ (0 :> 0) @@ (1024 :> 1013) @@ (2048 :> 1964) @@ (3072 :> 2792) @@ (4096 :> 3447) @@ (5120 :> 3887) @@ (6144 :> 4086) @@ (7168 :> 4030) @@ (8192 :> 3724) @@ (9216 :> 3187) @@ (10240 :> 2451) @@ (11264 :> 1563) @@ (12288 :> 578)
    [] op = "tan" -> (-12288 :> 584) @@ (-11264 :> 1691) @@ (-10240 :> 3060) @@ (-9216 :> 5073) @@ (-8192 :> 8950) @@ (-7168 :> 22611) @@ (-6144 :> -57759) @@ (-5120 :> -12327) @@ (-4096 :> -6379) @@ (-3072 :> -3816) @@ (-2048 :> -2238) @@ (-1024 :> -1046) @@ (0 :> 0) @@ (1024 :> 1046) @@ (2048 :> 2238) @@ (3072 :> 3816) @@ (4096 :> 6379) @@ (5120 :> 12327) @@ (6144 :> 57759) @@ (7168 :> -22611) @@ (8192 :> -8950) @@ (9216 :> -5073) @@ (10240 :> -3060) @@ (11264 :> -1691) @@ (12288 :> -584)
    [] op = "cosh" -> (-12288 :> 41237) @@ (-11264 :> 32167) @@ (-10240 :> 25118) @@ (-9216 :> 19647) @@ (-8192 :> 15410) @@ (-7168 :> 12141) @@ (-6144 :> 9635) @@ (-5120 :> 7735) @@ (-4096 :> 6320) @@ (-3072 :> 5303) @@ (-2048 :> 4619) @@ (-1024 :> 4225) @@ (0 :> 4096) @@ (1024 :> 4225) @@ (2048 :> 4619) @@ (3072 :> 5303) @@ (4096 :> 6320) @@ (5120 :> 7735) @@ (6144 :> 9635) @@ (7168 :> 12141) @@ (8192 :> 15410) @@ (9216 :> 19647) @@ (10240 :> 25118) @@ (11264 :> 32167) @@ (12288 :> 41237)
    [] op = "sinh" -> (-12288 :> -41033) @@ (-11264 :> -31905) @@ (-10240 :> -24782) @@ (-9216 :> -19215) @@ (-8192 :> -14856) @@ (-7168 :> -11430) @@ (-6144 :> -8722) @@ (-5120 :> -6561) @@ (-4096 :> -4814) @@ (-3072 :> -3368) @@ (-2048 :> -2134) @@ (-1024 :> -1035) @@ (0 :> 0) @@ (1024 :> 1035) @@ (2048 :> 2134) @@ (3072 :> 3368) @@ (4096 :> 4814) @@ (5120 :> 6561) @@ (6144 :> 8722) @@ (7168 :> 11430) @@ (8192 :> 14856) @@ (9216 :> 19215) @@ (10240 :> 24782) @@ (11264 :> 31905) @@ (12288 :> 41033)
    [] op = "tanh" -> (-12288 :> -4076) @@ (-11264 :> -4063) @@ (-10240 :> -4041) @@ (-9216 :> -4006) @@ (-8192 :> -3949) @@ (-7168 :> -3856) @@ (-6144 :> -3707) @@ (-5120 :> -3475) @@ (-4096 :> -3119) @@ (-3072 :> -2602) @@ (-2048 :> -1893) @@ (-1024 :> -1003) @@ (0 :> 0) @@ (1024 :> 1003) @@ (2048 :> 1893) @@ (3072 :> 2602) @@ (4096 :> 3119) @@ (5120 :> 3475) @@ (6144 :> 3707) @@ (7168 :> 3856) @@ (8192 :> 3949) @@ (9216 :> 4006) @@ (10240 :> 4041) @@ (11264 :> 4063) @@ (12288 :> 4076)
    [] op = "degrees" -> (-12288 :> -704051) @@ (-11264 :> -645380) @@ (-10240 :> -586709) @@ (-9216 :> -528038) @@ (-8192 :> -469367) @@ (-7168 :> -410696) @@ (-6144 :> -352025) @@ (-5120 :> -293354) @@ (-4096 :> -234684) @@ (-3072 :> -176013) @@ (-2048 :> -117342) @@ (-1024 :> -58671) @@ (0 :> 0) @@ (1024 :> 58671) @@ (2048 :> 117342) @@ (3072 :> 176013) @@ (4096 :> 234684) @@ (5120 :> 293354) @@ (6144 :> 352025) @@ (7168 :> 410696) @@ (8192 :> 469367) @@ (9216 :> 528038) @@ (10240 :> 586709) @@ (11264 :> 645380) @@ (12288 :> 704051)
    [] op = "radians" -> (-12288 :> -214) @@ (-11264 :> -197) @@ (-10240 :> -179) @@ (-9216 :> -161) @@ (-8192 :> -143) @@ (-7168 :> -125) @@ (-6144 :> -107) @@ (-5120 :> -89) @@ (-4096 :> -71) @@ (-3072 :> -54) @@ (-2048 :> -36) @@ (-1024 :> -18) @@ (0 :> 0) @@ (1024 :> 18) @@ (2048 :> 36) @@ (3072 :> 54) @@ (4096 :> 71) @@ (5120 :> 89) @@ (6144 :> 107) @@ (7168 :> 125) @@ (8192 :> 143) @@ (9216 :> 161) @@ (10240 :> 179) @@ (11264 :> 197) @@ (12288 :> 214)
    [] op = "erf" -> (-12288 :> -4096) @@ (-11264 :> -4096) @@ (-10240 :> -4094) @@ (-9216 :> -4090) @@ (-8192 :> -4077) @@ (-7168 :> -4041) @@ (-6144 :> -3957) @@ (-5120 :> -3780) @@ (-4096 :> -3452) @@ (-3072 :> -2913) @@ (-2048 :> -2132) @@ (-1024 :> -1132) @@ (0 :> 0) @@ (1024 :> 1132) @@ (2048 :> 2132) @@ (3072 :> 2913) @@ (4096 :> 3452) @@ (5120 :> 3780) @@ (6144 :> 3957) @@ (7168 :> 4041) @@ (8192 :> 4077) @@ (9216 :> 4090) @@ (10240 :> 4094) @@ (11264 :> 4096) @@ (12288 :> 4096)
    [] op = "erfc" -> (-12288 :> 8192) @@ (-11264 :> 8192) @@ (-10240 :> 8190) @@ (-9216 :> 8186) @@ (-8192 :> 8173) @@ (-7168 :> 8137) @@ (-6144 :> 8053) @@ (-5120 :> 7876) @@ (-4096 :> 7548) @@ (-3072 :> 7009) @@ (-2048 :> 6228) @@ (-1024 :> 5228) @@ (0 :> 4096) @@ (1024 :> 2964) @@ (2048 :> 1964) @@ (3072 :> 1183) @@ (4096 :> 644) @@ (5120 :> 316) @@ (6144 :> 139) @@ (7168 :> 55) @@ (8192 :> 19) @@ (9216 :> 6) @@ (10240 :> 2) @@ (11264 :> 0) @@ (12288 :> 0)
    [] op = "gamma" -> (-11264 :> -4114) @@ (-10240 :> -3872) @@ (-9216 :> -7139) @@ (-7168 :> 11315) @@ (-6144 :> 9680) @@ (-5120 :> 16062) @@ (-3072 :> -19801) @@ (-2048 :> -14520) @@ (-1024 :> -20077) @@ (1024 :> 14850) @@ (2048 :> 7260) @@ (3072 :> 5019) @@ (4096 :> 4096) @@ (5120 :> 3713) @@ (6144 :> 3630) @@ (7168 :> 3764) @@ (8192 :> 4096) @@ (9216 :> 4641) @@ (10240 :> 5445) @@ (11264 :> 6588) @@ (12288 :> 8192)
    [] op = "lgamma" -> (-11264 :> 18) @@ (-10240 :> -230) @@ (-9216 :> 2275) @@ (-7168 :> 4162) @@ (-6144 :> 3523) @@ (-5120 :> 5597) @@ (-3072 :> 6454) @@ (-2048 :> 5184) @@ (-1024 :> 6511) @@ (1024 :> 5276) @@ (2048 :> 2344) @@ (3072 :> 833) @@ (4096 :> 0) @@ (5120 :> -403) @@ (6144 :> -495) @@ (7168 :> -346) @@ (8192 :> 0) @@ (9216 :> 511) @@ (10240 :> 1166) @@ (11264 :> 1946) @@ (12288 :> 2839)
Tables == [op \in {"exp", "expm1", "log", "log1p", "log10", "fabs", "sqrt", "acos", "asin", "atan", "acosh", "asinh", "atanh", "cos", "sin", "tan", "cosh", "sinh", "tanh", "degrees", "radians", "erf", "erfc", "gamma", "lgamma"} |-> Values(op)]
Table(op, x) == IF x \in DOMAIN Tables[op] THEN <<Tables[op][x]>> ELSE <<>>
=============================================================================
