-------------------------------- MODULE LitX --------------------------------
(***************************************************************************)
(* C10.  Literal values and literal text, kind by kind.  Each state is one *)
(* block n of the family Part:                                             *)
(*  days    60 consecutive days, as dates and as timestamps (all of a      *)
(*          400-year cycle, or any stretch); the calendar is the model's   *)
(*  secs    60 consecutive seconds of a day at every precision             *)
(*  frac    fractions of a second on both sides of the epoch               *)
(*  ints    one of 2^k-1, 2^k, 2^k+1, +/-, against every width             *)
(*  matrix  one token against every type (most combinations are rejected)  *)
(*  times   malformed and boundary clock and calendar tokens               *)
(*  durs    interval_day values, and durations in every order of units     *)
(*  chars   32 consecutive code points in strings and names                *)
(*  flts    floating-point values of every magnitude                       *)
(*  outs    the last values each type can write, and the first it cannot   *)
(***************************************************************************)
EXTENDS Surf
CONSTANTS Part, Lo, Hi
VARIABLE n

NoTbl == [urns |-> <<>>, exts |-> <<>>]
Base0 == Mk("read", [m |-> "dir"], <<>>, [tn |-> <<[id |-> "t"]>>, cols |-> <<>>])
Proj(es) == [ver |-> <<>>, tbl |-> NoTbl, roots |-> <<[rk |-> "rel", rel |-> Mk("proj", [m |-> "dir"], <<Base0>>, [es |-> es])]>>]
\* a supported plan: text and back
Rt(es) == LET p == TLCEval(Proj(es))
              d == TLCEval(PrintDoc(p, DefaultOpts)) IN
          /\ ValidDoc(d) /\ MeanDoc(d) = p
          /\ PrintT(ToJson([c |-> "rt", ast |-> p, text |-> ToText(DocLines(d, Canon), "  ")]))
Law(p) == PrintT(ToJson([c |-> "law", ast |-> p]))
\* a written literal: what it denotes, or that it is rejected
DocLit(x, y) ==
  LET rd == [k |-> "read", out |-> <<>>, adds |-> <<>>, ins |-> <<>>, x |-> [tn |-> <<[id |-> "t"]>>, ar |-> "=>", refs |-> <<>>]]
      d  == [ver |-> <<>>, gs |-> <<>>, roots |-> <<[rk |-> "rel", rel |-> [k |-> "proj", out |-> <<EI(x)>>, adds |-> <<>>, ins |-> <<rd>>, x |-> NoX]]>>]
      v  == ValidDoc(d)
  IN PrintT(ToJson([c |-> "doc", ok |-> IF v THEN <<MeanDoc(d)>> ELSE <<>>, text |-> ToText(DocLines(d, y), "  ")]))
Written(tok, ty) == [k |-> "lit", tok |-> tok, ty |-> ty]

\* -- days -----------------------------------------------------------------
LDate(d) == [k |-> "lit", lk |-> "date", nb |-> d % 7 = 0, d |-> d]
LTs(d) == [k |-> "lit", lk |-> "ts", nb |-> d % 5 = 0, d |-> d, s |-> R(d + 800000, 1, 86400), f |-> PickQ(d + 800000, 2, FracPool(6))]
LPts(d) == LET p == PickQ(d + 800000, 3, <<0, 3, 6>>) IN
           [k |-> "lit", lk |-> IF d % 2 = 0 THEN "pts" ELSE "ptstz", nb |-> FALSE, d |-> d, s |-> R(d + 800000, 4, 86400), f |-> PickQ(d + 800000, 5, FracPool(p)), p |-> p]
DayOf(i) == -719528 + (60 * n) + i
CalendarLaw == \A i \in 0..59 : LET c == CivilFromDays(DayOf(i)) IN
                 /\ DaysFromCivil(c.y, c.mo, c.da) = DayOf(i) /\ c.mo \in 1..12 /\ c.da \in 1..MonthLen(c.y, c.mo)
Days == CalendarLaw /\ Rt(Tab(LAMBDA i : LDate(DayOf(i - 1)), 60)) /\ Rt(Tab(LAMBDA i : LTs(DayOf(i - 1)), 60)) /\ Rt(Tab(LAMBDA i : LPts(DayOf(i - 1)), 60))

\* -- seconds ----------------------------------------------------------------
Secs == LET S(i) == ((60 * n) + i - 1) % 86400 IN
        /\ Rt(Tab(LAMBDA i : [k |-> "lit", lk |-> "time", nb |-> i % 2 = 0, s |-> S(i), f |-> PickQ(n, i, FracPool(6))], 60))
        /\ \A p \in ChronoPrec : Rt(Tab(LAMBDA i : [k |-> "lit", lk |-> "ptime", nb |-> i % 3 = 0, s |-> S(i), f |-> PickQ(n, i + 60, FracPool(p)), p |-> p], 60))
        /\ \A p \in ChronoPrec : Rt(Tab(LAMBDA i : [k |-> "lit", lk |-> "ptstz", nb |-> FALSE, d |-> R(n, i, 40000) - 20000, s |-> S(i), f |-> PickQ(n, i + 120, FracPool(p)), p |-> p], 60))
\* -- fractions ----------------------------------------------------------------
Frac == \A p \in ChronoPrec :
          Rt(Tab(LAMBDA i : [k |-> "lit", lk |-> PickQ(n, i, <<"pts", "ptstz">>), nb |-> FALSE, d |-> PickQ(n, i + 40, <<-1, 0, 1, -100000, 100000, 11016>>),
                             s |-> PickQ(n, i + 80, SecPool), f |-> IF p = 0 THEN 0 ELSE R(n, i + 120, Pow10(p)), p |-> p], 30))
\* -- integers -------------------------------------------------------------------
Dbl(q) == LET RECURSIVE go(_, _, _)
              go(i, c, acc) == IF i = 0 THEN (IF c > 0 THEN <<c>> ELSE <<>>) \o acc
                               ELSE LET v == (2 * q[i]) + c IN go(i - 1, v \div 10, <<v % 10>> \o acc)
          IN go(Len(q), 0, <<>>)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN <<1>> ELSE TLCEval(Dbl(Pow2(k - 1)))
Inc(q) == LET RECURSIVE go(_, _)
              go(i, acc) == IF i = 0 THEN <<1>> \o acc ELSE IF q[i] = 9 THEN go(i - 1, <<0>> \o acc) ELSE SubSeq(q, 1, i - 1) \o <<q[i] + 1>> \o acc
          IN go(Len(q), <<>>)
Dec(q) == LET RECURSIVE go(_, _)
              go(i, acc) == IF q[i] = 0 THEN go(i - 1, <<9>> \o acc) ELSE SubSeq(q, 1, i - 1) \o <<q[i] - 1>> \o acc
              r == go(Len(q), <<>>)
          IN IF r[1] = 0 /\ Len(r) > 1 THEN Tail(r) ELSE r
RECURSIVE Str(_, _)
Str(q, i) == IF i > Len(q) THEN "" ELSE Digit(q[i]) \o Str(q, i + 1)
\* n = 6 * k + variant, k = 0..70
IntTok ==
  LET k == n \div 6
      v == n % 6
      P == TLCEval(Pow2(k))
      neg == v >= 3
      q == CASE v % 3 = 0 -> Dec(P) [] v % 3 = 1 -> P [] OTHER -> Inc(P)
      \* bits needed in two's complement
      bits == CASE v = 0 -> k + 1 [] v \in {1, 2} -> k + 2 [] v = 3 -> k + 1 [] v = 4 -> k + 1 [] OTHER -> k + 2
      zero == q = <<0>>
  IN [tk |-> "int", num |-> (IF neg /\ ~zero THEN "-" ELSE "") \o Str(q, 1), mw |-> IF zero THEN 1 ELSE IF k = 0 /\ v = 2 THEN 3 ELSE bits]
STy(nm, nu) == <<[k |-> "s", n |-> nm, nu |-> nu]>>
Ints == /\ \A ty \in {<<>>} \cup {STy(w, "R") : w \in {"i8", "i16", "i32", "i64", "fp64", "string", "date", "boolean"}} \cup {STy(w, "N") : w \in {"i8", "i64"}} :
             DocLit(Written(IntTok, ty), Canon)
        /\ LET ws == FilterQ(LAMBDA w : Bits[w] >= IntTok.mw, <<"i8", "i16", "i32", "i64">>) IN
           ws # <<>> => Rt(Map(LAMBDA w : [k |-> "lit", lk |-> "int", nb |-> FALSE, w |-> w, num |-> IntTok.num, mw |-> IntTok.mw], ws)
                           \o Map(LAMBDA w : [k |-> "lit", lk |-> "int", nb |-> TRUE, w |-> w, num |-> IntTok.num, mw |-> IntTok.mw], ws))
\* -- tokens against types ----------------------------------------------------------
AllTypes == {STy(nm, "R") : nm \in Range(SimpleNames)}
            \cup {<<[k |-> "prec", n |-> nm, nu |-> "R", p |-> p]>> : nm \in Range(PrecNames), p \in {0, 1, 3, 6, 9, 12, 13}}
            \cup {<<[k |-> "list", nu |-> "R", e |-> STy("i64", "R")[1]]>>, <<[k |-> "struct", nu |-> "N", es |-> <<>>]>>,
                  <<[k |-> "udtS", nu |-> "R", nm |-> "nosuch", an |-> -1, ur |-> -1, ps |-> <<>>]>>, <<>>}
Nullable(ty) == IF ty = <<>> THEN ty ELSE <<[ty[1] EXCEPT !.nu = "N"]>>
StrTok(n0) == [tk |-> "str", cs |-> PickQ(n0, 1, << <<>>, <<97>>, <<32>>, <<39, 92, 10>>, <<49>>, <<116, 114, 117, 101>>, <<50, 48, 50, 52, 45, 48, 49>>, <<49, 50, 58, 51, 48>>, <<49, 100, 120>>, <<20013>> >>)]
Unspec(ty) == IF ty = <<>> THEN ty ELSE <<[ty[1] EXCEPT !.nu = "U"]>>
Matrix == LET t == IF n % 5 = 0 THEN StrTok(n) ELSE GenTok(Sub(n, 1)) IN
          \A ty \in AllTypes : Ambiguous(t, ty) \/ DocLit(Written(t, CASE n % 3 = 0 -> ty [] n % 3 = 1 -> Nullable(ty) [] OTHER -> Unspec(ty)), Canon)
\* -- clock and calendar boundaries ----------------------------------------------------
\* the ends of the range of 64-bit nanoseconds
NsEdge ==
  \A hi \in {TRUE, FALSE}, ds \in {-1, 0, 1}, f \in {145224191, 145224192, 145224193, 854775806, 854775807, 854775808} :
    LET d == IF hi THEN 106751 ELSE -106752
        s == (IF hi THEN 85636 ELSE 763) + ds
        tok == TsTok(d, s, f, 9) IN
    DocLit(Written(tok, <<[k |-> "prec", n |-> PickQ(n, 1, <<"precisiontimestamp", "precisiontimestamptz">>), nu |-> "R", p |-> PickQ(n, 2, <<9, 9, 6, 3, 0>>)]>>), Canon)
Times ==
  LET dt == [tk |-> "date", y |-> PickQ(n, 1, <<1970, 1969, 2000, 1900, 2024, 2023, 1600, 0, -1, 9999, 1>>), mo |-> PickQ(n, 2, <<1, 2, 2, 2, 3, 4, 12, 0, 13>>),
             da |-> PickQ(n, 3, <<1, 28, 29, 30, 31, 0, 32>>)]
      fd == PickQ(n, 4, <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9>>)
      tm == [tk |-> "time", h |-> PickQ(n, 5, <<0, 1, 12, 23, 24>>), mi |-> PickQ(n, 6, <<0, 30, 59, 59, 60>>), se |-> PickQ(n, 7, <<0, 30, 59, 59, 60>>),
             f |-> IF fd = 0 THEN 0 ELSE LET z == R(n, 9, fd + 1) IN R(n, 8, Pow10(fd - z)) * Pow10(z), fd |-> fd,
             fx |-> IF fd = 9 THEN PickQ(n, 10, <<"", "", "0", "000", "1", "0001", "9999">>) ELSE ""]
      P(nm) == {<<[k |-> "prec", n |-> nm, nu |-> "R", p |-> p]>> : p \in {0, 3, 6, 9}}
      y == GenStyle(Sub(n, 3)) IN
  /\ n % 50 = 0 => NsEdge
  /\ DocLit(Written(dt, STy("date", "R")), y)
  /\ \A ty \in P("precisiontime") \cup {STy("time", "N")} : DocLit(Written(tm, ty), y)
  /\ \A ty \in P("precisiontimestamp") \cup P("precisiontimestamptz") \cup {STy("timestamp", "R")} : DocLit(Written([tk |-> "ts", dt |-> dt, tm |-> tm], ty), y)
  \* the three nullability suffixes, on every kind of temporal literal
  /\ \A nu \in {"N", "U"} :
       /\ \A ty \in {<<[k |-> "prec", n |-> nm, nu |-> nu, p |-> 6]>> : nm \in {"precisiontimestamp", "precisiontimestamptz"}} \cup {STy("timestamp", nu)} : DocLit(Written([tk |-> "ts", dt |-> dt, tm |-> tm], ty), y)
       /\ \A ty \in {<<[k |-> "prec", n |-> "precisiontime", nu |-> nu, p |-> 6]>>, STy("time", nu)} : DocLit(Written(tm, ty), y)
       /\ DocLit(Written(dt, STy("date", nu)), y)
\* -- durations -----------------------------------------------------------------------------
Grid == <<0, 1, -1, 59, 999, -999, 86399, 3650000, -36500>>
Durs ==
  LET p == PickQ(n, 1, <<0, 3, 6, 9, 12>>)
      us == <<"d", "s", "ms", "us", "ns", "ps">>
      L(i) == [k |-> "lit", lk |-> "iday", nb |-> i % 2 = 0, dd |-> PickQ(n, 10 + i, <<0, 1, -1, 36500, 1000000>>), ss |-> PickQ(n, 30 + i, <<0, 1, -1, 59, 86400, 1000000>>),
               sub |-> IF p = 0 THEN 0 ELSE R(n, 50 + i, 1999) - 999, p |-> p]
      D(i) == [tk |-> "dur", parts |-> Tab(LAMBDA j : [n |-> PickQ(n, (60 * i) + j, Grid), un |-> PickQ(n, (60 * i) + 20 + j, us)], R(n, 90 + i, 4))]
  IN /\ Rt(Tab(L, 12))
     /\ \A i \in 1..12, q \in {0, 3, 6, 9, 12} : DocLit(Written(D(i), <<[k |-> "prec", n |-> "interval_day", nu |-> PickQ(n, i, <<"R", "N", "U">>), p |-> q]>>), Canon)
\* -- characters --------------------------------------------------------------------------------
Cps == FilterQ(LAMBDA c : c < 55296 \/ c > 57343, Tab(LAMBDA i : (32 * n) + i - 1, 32))
Strs(F(_)) == Map(LAMBDA c : [k |-> "lit", lk |-> "str", nb |-> FALSE, cs |-> F(c)], Cps)
CharPlan ==
  LET rd == Mk("read", [m |-> "dir"], <<>>, [tn |-> Map(LAMBDA c : [cs |-> <<c>>], Cps),
                 cols |-> Map(LAMBDA c : [n |-> [cs |-> <<97, c, 98>>], t |-> [k |-> "s", n |-> "i64", nu |-> "R"]], Cps)])
      en == [xn |-> [id |-> "Alpha"], xa |-> [pos |-> Map(LAMBDA c : [xk |-> "str", cs |-> <<c, 97>>], Cps), named |-> <<>>, cols |-> <<>>]]
      a == ProjAcc(Strs(LAMBDA c : <<c>>) \o Strs(LAMBDA c : <<97, c, 110>>), 1, <<>>, <<>>)
      pj == [Mk("proj", [m |-> "dir"], <<rd>>, [es |-> a.es]) EXCEPT !.enh = <<en>>]
  IN [ver |-> <<>>, tbl |-> NoTbl, roots |-> <<[rk |-> "root", names |-> Map(LAMBDA c : [cs |-> <<c, c>>], Cps), rel |-> pj]>>]
Chars == IF Cps = <<>> THEN TRUE ELSE Law(CharPlan)
\* -- floats ----------------------------------------------------------------------------------------
Mant(i) == ToString(R(n, i, 10)) \o "." \o ToString(R(n, i + 100, 1000000000)) \o ToString(R(n, i + 200, 10000000))
Flt(i) == LET w == PickQ(n, i + 300, <<"fp32", "fp64">>)
              e == IF w = "fp32" THEN R(n, i + 400, 83) - 45 ELSE R(n, i + 400, 632) - 324 IN
          [k |-> "lit", lk |-> "flt", nb |-> i % 4 = 0, w |-> w, num |-> (IF Flip(n, i + 500, 50) THEN "-" ELSE "") \o Mant(i) \o "e" \o ToString(e), mw |-> 32]
Flts == Law(Proj(Tab(Flt, 20)))

\* -- the edges of what can be written ----------------------------------------------------------------
MinDay == -96465292
MaxDay == 95026236

Raw(rk, nums) == Map(LAMBDA x : [k |-> "lit", lk |-> "raw", rk |-> rk, nb |-> n % 2 = 1, num |-> x], nums)
RawP(rk, p, nums) == Map(LAMBDA x : [k |-> "lit", lk |-> "raw", rk |-> rk, nb |-> n % 2 = 1, num |-> x, p |-> p], nums)
I64Min == "-9223372036854775808"
I64Max == "9223372036854775807"
RECURSIVE Zeros(_)
Zeros(p) == IF p = 0 THEN "" ELSE "0" \o Zeros(p - 1)
\* times of day: a whole day is one unit too long
OverDay(p) == RawP("precisiontime", p, <<"86400" \o Zeros(p), "86400" \o (IF p = 0 THEN "" ELSE Zeros(p - 1) \o "1"), "86401" \o Zeros(p), "172800" \o Zeros(p), "-1", "-86400" \o Zeros(p), I64Min, I64Max>>)
OddPrec == RawP("precisiontime", PickQ(n, 1, <<1, 2, 4, 5, 7, 8, 10, 11, 13, -1, 15>>), <<"0", "1", "-1">>)
           \o RawP(PickQ(n, 2, <<"precisiontimestamp", "precisiontimestamptz">>), PickQ(n, 3, <<1, 2, 4, 5, 7, 8, 10, 11, 13, -3, 18>>), <<"0", "1", I64Min>>)
OverTs(p) == Flat(Map(LAMBDA rk : RawP(rk, p, <<"8210266876800" \o Zeros(p), "-8334601228801" \o Zeros(p), I64Min, I64Max>>), <<"precisiontimestamp", "precisiontimestamptz">>))
Outside ==
  Raw("i8", <<"128", "-129", "255", "256", "-256", "65536", "2147483647", "-2147483648">>)
  \o Raw("i16", <<"32768", "-32769", "65535", "65536", "131072", "2147483647", "-2147483648">>)
  \o Raw("date", <<ToString(MaxDay + 1), ToString(MinDay - 1), "2147483647", "-2147483648">>)
  \o Raw("time", <<"86400000000", "86400000001", "90000000000", "-1", "-86400000000", I64Min, I64Max>>)
  \o Raw("timestamp", <<"8210266876800000000", "-8334601228800000001", I64Min, I64Max>>)
  \o OverDay(0) \o OverDay(3) \o OverDay(6) \o OverDay(9) \o OverTs(0) \o OverTs(3) \o RawP("precisiontimestamp", 6, <<"8210266876800000000", "-8334601228800000001", I64Min, I64Max>>)
  \o OddPrec
\* day intervals: seconds and fractions that belong further up are written, and reported
DayEdge == Map(LAMBDA x : [k |-> "lit", lk |-> "iday", nb |-> FALSE, dd |-> x[1], ss |-> x[2], sub |-> x[3], p |-> x[4]],
  << <<3650000, 0, 0, 0>>, <<-3650000, 0, 0, 6>>, <<3650001, 0, 0, 6>>, <<-3650001, 0, 0, 6>>, <<3650000, 1, 0, 6>>, <<3650000, -1, 0, 3>>, <<-3650000, -1, 0, 3>>, <<-3650000, 1, 0, 3>>,
     <<3649999, 86400, 0, 0>>, <<3649999, 86401, 0, 0>>, <<-3649999, -86400, 0, 0>>, <<-3649999, -86401, 0, 0>>, <<3650001, -86400, 0, 9>>, <<0, 2147483647, 0, 6>>, <<0, -2147483647, 0, 6>>,
     <<0, 0, 999, 3>>, <<0, 0, 1000, 3>>, <<0, 0, -999, 3>>, <<0, 0, -1000, 3>>, <<0, 0, 999999, 6>>, <<0, 0, 1000000, 6>>, <<0, 0, -1000000, 6>>, <<0, 0, -999999, 6>>, <<0, 0, 999999999, 9>>,
     <<0, 0, 1000000000, 9>>, <<0, 0, -1000000000, 9>>, <<0, 0, 1, 0>>, <<0, 0, -1, 0>>, <<1, 1, 1, 1>>, <<1, 1, 1, 2>>, <<1, 1, 0, 4>>, <<0, 0, 0, 13>>, <<0, 0, 0, 12>>, <<0, 0, 2000000000, 12>> >>)
Inside == <<[k |-> "lit", lk |-> "date", nb |-> FALSE, d |-> MaxDay], [k |-> "lit", lk |-> "date", nb |-> TRUE, d |-> MinDay], [k |-> "lit", lk |-> "date", nb |-> TRUE, d |-> MinDay + 365]>>
  \o Flat(Map(LAMBDA p : Map(LAMBDA dsf : [k |-> "lit", lk |-> PickQ(n, p, <<"pts", "ptstz">>), nb |-> FALSE, d |-> dsf[1], s |-> dsf[2], f |-> IF dsf[2] = 0 THEN 0 ELSE Pow10(p) - 1, p |-> p],
                     << <<MaxDay, 86399>>, <<MinDay, 0>>, <<MinDay, 86399>>, <<0, 86399>>, <<-1, 86399>> >>), <<0, 3, 6>>))
  \o Map(LAMBDA p : [k |-> "lit", lk |-> "ptime", nb |-> FALSE, s |-> 86399, f |-> Pow10(p) - 1, p |-> p], <<0, 3, 6, 9>>)
  \o <<[k |-> "lit", lk |-> "ts", nb |-> FALSE, d |-> MaxDay, s |-> 86399, f |-> 999999], [k |-> "lit", lk |-> "ts", nb |-> FALSE, d |-> MinDay, s |-> 0, f |-> 0],
       [k |-> "lit", lk |-> "time", nb |-> FALSE, s |-> 86399, f |-> 999999]>>
Shown(es, o) == LET p == TLCEval(Proj(es)) IN
  PrintT(ToJson([c |-> "fmt", seed |-> n, ast |-> p, opts |-> o, text |-> ToText(DocLines(TLCEval(PrintDoc(p, o)), Canon), o.ind), back |-> <<>>]))
Outs == /\ \A i \in 1..Len(Outside) : Shown(<<Outside[i]>>, DefaultOpts)
        /\ \A i \in 1..Len(DayEdge) : Shown(<<DayEdge[i]>>, DefaultOpts)
        /\ Shown(Outside, DefaultOpts) /\ Shown(DayEdge, DefaultOpts)
        /\ Rt(Inside)

Init == n \in Lo..(Lo + 15)
Next == n + 16 <= Hi /\ n' = n + 16
Check == CASE Part = "days" -> Days [] Part = "secs" -> Secs [] Part = "frac" -> Frac [] Part = "ints" -> Ints [] Part = "matrix" -> Matrix
           [] Part = "times" -> Times [] Part = "durs" -> Durs [] Part = "chars" -> Chars [] Part = "outs" -> Outs [] OTHER -> Flts
=============================================================================
