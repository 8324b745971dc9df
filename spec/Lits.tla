-------------------------------- MODULE Lits --------------------------------
(***************************************************************************)
(* Literals: values, their text, and what text denotes.                    *)
(*                                                                         *)
(* literal  [k |-> "lit", lk, nb, ...]  with nb = nullable and, by lk:     *)
(*   bool b | int w num mw | flt w num mw | str cs | bin bs | date d       *)
(*   time s f | ts d s f | ptime s f p | pts/ptstz d s f p                 *)
(*   iday dd ss sub p (p = -1: not set) | null nty                          *)
(*   unrepresentable: raw rk num p | lun uk | lnone                        *)
(*   any but null may carry tv, a type variation anchor                     *)
(*   (int: mw = the number of bits the decimal string num needs)           *)
(* surface  [k |-> "lit", tok, ty]  with ty = <<>> or <<type>>             *)
(***************************************************************************)
EXTENDS Types

\* -- the proleptic Gregorian calendar, days since 1970-01-01 --------------
DaysFromCivil(y0, m, d) ==
  LET y   == IF m <= 2 THEN y0 - 1 ELSE y0
      era == y \div 400
      yoe == y - era * 400
      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
CivilFromDays(z0) ==
  LET z   == z0 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp  == (5 * doy + 2) \div 153
      d   == doy - (153 * mp + 2) \div 5 + 1
      m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), mo |-> m, da |-> d]
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                  ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Digit(n) == <<"0","1","2","3","4","5","6","7","8","9">>[n + 1]
RECURSIVE Pad(_, _)
Pad(n, w) == IF w = 0 THEN "" ELSE Pad(n \div 10, w - 1) \o Digit(n % 10)
ShowYear(y) == IF y < -9999 THEN <<"-", -y>> ELSE IF y < 0 THEN <<"-", Pad(-y, 4)>> ELSE IF y > 9999 THEN <<"+", y>> ELSE Pad(y, 4)

\* -- tokens ---------------------------------------------------------------
DateTok(d)       == LET c == CivilFromDays(d) IN [tk |-> "date", y |-> c.y, mo |-> c.mo, da |-> c.da]
TimeTok(s, f, p) == [tk |-> "time", h |-> s \div 3600, mi |-> (s \div 60) % 60, se |-> s % 60, f |-> f, fd |-> p]
TsTok(d, s, f, p) == [tk |-> "ts", dt |-> DateTok(d), tm |-> TimeTok(s, f, p)]
\* digits written after the ninth: no type holds them, only zeros may stand there
Beyond(t)        == IF "fx" \in DOMAIN t THEN t.fx ELSE ""
ShowDate(t, y)   == LET z == IF y.ds = 1 THEN "/" ELSE "-" IN <<ShowYear(t.y), z, Pad(t.mo, 2), z, Pad(t.da, 2)>>
ShowTime(t)      == <<Pad(t.h, 2), ":", Pad(t.mi, 2), ":", Pad(t.se, 2),
                      IF t.fd = 0 THEN "" ELSE <<".", Pad(t.f, t.fd), Beyond(t)>> >>
ShowTok(t, y) ==
  CASE t.tk = "int"  -> t.num
    [] t.tk = "flt"  -> t.num
    [] t.tk = "bool" -> IF t.b THEN "true" ELSE "false"
    [] t.tk = "str"  -> <<"'", Escaped(t.cs, y.es, 39), "'">>
    [] t.tk = "null" -> "null"
    [] t.tk = "date" -> <<"'", ShowDate(t, y), "'">>
    [] t.tk = "time" -> <<"'", ShowTime(t), "'">>
    [] t.tk = "ts"   -> <<"'", ShowDate(t.dt, y), IF y.tz = 1 THEN " " ELSE "T", ShowTime(t.tm), "'">>
    [] t.tk = "dur"  -> <<"'", Join(Map(LAMBDA x : <<x.n, x.un>>, t.parts), " "), "'">>
    [] t.tk = "bin"  -> IF t.sh THEN <<"0x", Map(Hex2, t.bs)>> ELSE "{binary}"
    [] t.tk = "durw" -> <<"'", Join(Map(LAMBDA x : <<x.n, x.un>>, t.parts), " "), "'", [warn |-> t.w]>>
    [] t.tk = "bad"  -> [bad |-> t.tok]
    [] t.tk = "timew" -> <<"'", ShowTime(t.tm), "'", [warn |-> 1]>>
    [] t.tk = "tsw" -> <<"'", ShowDate(t.dt, y), "T", ShowTime(t.tm), "'", [warn |-> 1]>>
    [] OTHER -> "<?tok?>"

\* -- Print ----------------------------------------------------------------
UnitOf == (3 :> "ms") @@ (6 :> "us") @@ (9 :> "ns") @@ (12 :> "ps")
UnitRank(u) == CASE u = "d" -> 1 [] u = "s" -> 2 [] OTHER -> 3
DayPrec(p) == IF p = -1 THEN 6 ELSE p
DurParts(l) ==
  LET p  == DayPrec(l.p)
      ps == (IF l.dd # 0 THEN <<[n |-> l.dd, un |-> "d"]>> ELSE <<>>)
         \o (IF l.ss # 0 THEN <<[n |-> l.ss, un |-> "s"]>> ELSE <<>>)
         \o (IF l.sub # 0 THEN <<[n |-> l.sub, un |-> UnitOf[p]]>> ELSE <<>>)
  IN IF ps = <<>> THEN <<[n |-> 0, un |-> "s"]>> ELSE ps
\* an interval outside the range of the Substrait type is shown, and reported
\* days, and days and seconds together, have a maximum
TooLong(l) == LET whole == l.dd + (l.ss \div 86400) IN
  Abs(l.dd) > 3650000 \/ whole > 3650000 \/ whole < -3650000 \/ (whole = 3650000 /\ l.ss % 86400 > 0)
DayWarn(l) == (IF TooLong(l) THEN 1 ELSE 0)
              + (IF DayPrec(l.p) \in {3, 6, 9} /\ Abs(l.sub) >= Pow10(DayPrec(l.p)) THEN 1 ELSE 0)
PrintTok(l, o) ==
  CASE l.lk = "bool" -> [tk |-> "bool", b |-> l.b]
    [] l.lk = "int"  -> [tk |-> "int", num |-> l.num, mw |-> l.mw]
    [] l.lk = "flt"  -> [tk |-> "flt", num |-> l.num, mw |-> l.mw]
    [] l.lk = "str"  -> [tk |-> "str", cs |-> l.cs]
    [] l.lk = "bin"  -> [tk |-> "bin", bs |-> l.bs, sh |-> o.bin]
    [] l.lk = "date" -> DateTok(l.d)
    [] l.lk = "time" -> TimeTok(l.s, l.f, 6)
    [] l.lk = "ts"   -> TsTok(l.d, l.s, l.f, 6)
    [] l.lk = "ptime" -> IF l.p = 12 THEN [tk |-> "timew", tm |-> TimeTok(l.s, l.f, 9)] ELSE TimeTok(l.s, l.f, l.p)
    [] l.lk \in {"pts", "ptstz"} -> IF l.p = 12 THEN [tk |-> "tsw", dt |-> DateTok(l.d), tm |-> TimeTok(l.s, l.f, 9)]     \* picoseconds: shown to the nanosecond, and reported
                                    ELSE TsTok(l.d, l.s, l.f, l.p)
    [] l.lk = "iday" -> IF DayPrec(l.p) \notin {0, 3, 6, 9, 12} \/ (l.p = 0 /\ l.sub # 0) THEN [tk |-> "bad", tok |-> "LiteralType"]
                        ELSE IF DayWarn(l) > 0 THEN [tk |-> "durw", parts |-> DurParts(l), w |-> DayWarn(l)] ELSE [tk |-> "dur", parts |-> DurParts(l)]
    [] l.lk = "null" -> [tk |-> "null"]
    [] l.lk = "lnone" -> [tk |-> "bad", tok |-> "Literal"]
    [] OTHER -> [tk |-> "bad", tok |-> "LiteralType"]
Nu(nb) == IF nb THEN "N" ELSE "R"
PrecOf == ("ptime" :> "precisiontime") @@ ("pts" :> "precisiontimestamp") @@ ("ptstz" :> "precisiontimestamptz")
LitType(l, tbl, o) ==
  CASE l.lk = "bool" -> [k |-> "s", n |-> "boolean", nu |-> Nu(l.nb)]
    [] l.lk \in {"int", "flt", "nonfin"} -> [k |-> "s", n |-> l.w, nu |-> Nu(l.nb)]
    [] l.lk = "str"  -> [k |-> "s", n |-> "string", nu |-> Nu(l.nb)]
    [] l.lk = "bin"  -> [k |-> "s", n |-> "binary", nu |-> Nu(l.nb)]
    [] l.lk = "date" -> [k |-> "s", n |-> "date", nu |-> Nu(l.nb)]
    [] l.lk = "time" -> [k |-> "s", n |-> "time", nu |-> Nu(l.nb)]
    [] l.lk = "ts"   -> [k |-> "s", n |-> "timestamp", nu |-> Nu(l.nb)]
    [] l.lk \in DOMAIN PrecOf -> [k |-> "prec", n |-> PrecOf[l.lk], nu |-> Nu(l.nb), p |-> l.p]
    [] l.lk = "iday" -> [k |-> "prec", n |-> "interval_day", nu |-> Nu(l.nb), p |-> DayPrec(l.p)]
    [] l.lk = "null" -> TypeOut(l.nty, tbl, o)
    [] l.lk = "raw"  -> IF l.rk \in Range(SimpleNames) THEN [k |-> "s", n |-> l.rk, nu |-> Nu(l.nb)]
                        ELSE [k |-> "prec", n |-> l.rk, nu |-> Nu(l.nb), p |-> l.p]
    [] OTHER -> [k |-> "s", n |-> "?", nu |-> "R"]
LitTypeOf(l, tbl, o) == IF "tv" \in DOMAIN l THEN ("va" :> VarOut(l.tv, tbl, o)) @@ LitType(l, tbl, o) ELSE LitType(l, tbl, o)
Inferred(l) == \/ l.lk \in {"bool", "str", "bin"}
               \/ (l.lk \in {"int", "flt", "nonfin"} /\ l.w \in {"i64", "fp64"})
               \/ (l.lk = "raw" /\ l.rk \in {"i64", "fp64"})
ShowsType(l, o) == \/ l.lk = "null"
                   \/ /\ l.lk \notin {"lun", "lnone"}
                      /\ \/ o.lt = "all"
                         \/ o.lt = "req" /\ (l.nb \/ "tv" \in DOMAIN l \/ ~Inferred(l))
PrintLit(l, tbl, o) == [k |-> "lit", tok |-> PrintTok(l, o),
                        ty |-> IF ShowsType(l, o) THEN <<LitTypeOf(l, tbl, o)>> ELSE <<>>]

ShowLit(x, y) == <<ShowTok(x.tok, y), IF x.ty = <<>> THEN "" ELSE <<":", Sp(y.cl), ShowT(x.ty[1], y)>> >>

\* -- Valid / Mean -----------------------------------------------------------
Bits   == ("i8" :> 8) @@ ("i16" :> 16) @@ ("i32" :> 32) @@ ("i64" :> 64)
\* too large for a 32-bit float; a fraction is rounded to the nearest float
Over32 == {"400000000000000000000000000000000000000.0"}
FBits  == ("fp32" :> 32) @@ ("fp64" :> 64)
ChronoPrec == {0, 3, 6, 9}
ValidDate(t) == t.mo \in 1..12 /\ t.da \in 1..31 /\ t.da <= MonthLen(t.y, t.mo)
ValidTime(t, p) == ~(Beyond(t) \in {"1", "0001", "9999"}) /\ t.h \in 0..23 /\ t.mi \in 0..59 /\ t.se \in 0..59 /\ t.fd <= 9
                   /\ (t.fd > p => t.f % Pow10(t.fd - p) = 0)
SecOf(t)     == t.h * 3600 + t.mi * 60 + t.se
FracOf(t, p) == IF t.fd <= p THEN t.f * Pow10(p - t.fd) ELSE t.f \div Pow10(t.fd - p)
\* nanoseconds since the epoch must fit 64 bits
InNs(d, s, f) == \/ d > -106752 /\ d < 106751
                 \/ d = 106751 /\ (s < 85636 \/ (s = 85636 /\ f <= 854775807))
                 \/ d = -106752 /\ (s > 763 \/ (s = 763 /\ f >= 145224192))
IsS(t, n)    == t.k = "s" /\ t.n = n
ValidLit(x, tbl) ==
  LET t == x.tok IN
  IF x.ty = <<>>
  THEN CASE t.tk = "int" -> t.mw <= 64 [] t.tk = "flt" -> t.mw <= 64
         [] t.tk \in {"bool", "str"} -> TRUE
         [] OTHER -> FALSE
  ELSE LET ty == x.ty[1] IN
       /\ ValidT(ty, tbl)
       /\ CASE t.tk = "int"  -> ty.k = "s" /\ ty.n \in DOMAIN Bits /\ t.mw <= Bits[ty.n]
            [] t.tk = "flt"  -> ty.k = "s" /\ ty.n \in DOMAIN FBits /\ ~(ty.n = "fp32" /\ t.num \in Over32)
            [] t.tk = "bool" -> IsS(ty, "boolean")
            [] t.tk = "str"  -> IsS(ty, "string")
            [] t.tk = "null" -> TRUE
            [] t.tk = "date" -> IsS(ty, "date") /\ ValidDate(t)
            [] t.tk = "time" -> \/ IsS(ty, "time") /\ ValidTime(t, 6)
                                \/ ty.k = "prec" /\ ty.n = "precisiontime" /\ ty.p \in ChronoPrec /\ ValidTime(t, ty.p)
            [] t.tk = "ts"   -> /\ ValidDate(t.dt)
                                /\ \/ IsS(ty, "timestamp") /\ ValidTime(t.tm, 6)
                                   \/ ty.k = "prec" /\ ty.n \in {"precisiontimestamp", "precisiontimestamptz"}
                                      /\ ty.p \in ChronoPrec /\ ValidTime(t.tm, ty.p)
                                      /\ (ty.p = 9 => InNs(DaysFromCivil(t.dt.y, t.dt.mo, t.dt.da), SecOf(t.tm), FracOf(t.tm, 9)))
            [] t.tk = "dur"  -> /\ ty.k = "prec" /\ ty.n = "interval_day" /\ ty.p \in {0, 3, 6, 9, 12}
                                /\ t.parts # <<>> /\ \A i \in 2..Len(t.parts) : UnitRank(t.parts[i - 1].un) < UnitRank(t.parts[i].un)
                                /\ \A i \in 1..Len(t.parts) : t.parts[i].un \in {"d", "s"} \/ (ty.p # 0 /\ t.parts[i].un = UnitOf[ty.p])
            [] OTHER -> FALSE
PartOf(ps, u) == LET S == {i \in 1..Len(ps) : ps[i].un = u} IN IF S = {} THEN 0 ELSE ps[CHOOSE i \in S : TRUE].n
MeanLit(x, tbl) ==
  LET t  == x.tok
      nb == x.ty # <<>> /\ x.ty[1].nu # "R"
  IN CASE t.tk = "int"  -> [k |-> "lit", lk |-> "int", nb |-> nb, w |-> IF x.ty = <<>> THEN "i64" ELSE x.ty[1].n, num |-> t.num, mw |-> t.mw]
       [] t.tk = "flt"  -> [k |-> "lit", lk |-> "flt", nb |-> nb, w |-> IF x.ty = <<>> THEN "fp64" ELSE x.ty[1].n, num |-> t.num, mw |-> t.mw]
       [] t.tk = "bool" -> [k |-> "lit", lk |-> "bool", nb |-> nb, b |-> t.b]
       [] t.tk = "str"  -> [k |-> "lit", lk |-> "str", nb |-> nb, cs |-> t.cs]
       [] t.tk = "null" -> [k |-> "lit", lk |-> "null", nb |-> FALSE, nty |-> MeanT(x.ty[1], tbl)]
       [] t.tk = "date" -> [k |-> "lit", lk |-> "date", nb |-> nb, d |-> DaysFromCivil(t.y, t.mo, t.da)]
       [] t.tk = "time" -> IF x.ty[1].k = "s" THEN [k |-> "lit", lk |-> "time", nb |-> nb, s |-> SecOf(t), f |-> FracOf(t, 6)]
                           ELSE [k |-> "lit", lk |-> "ptime", nb |-> nb, s |-> SecOf(t), f |-> FracOf(t, x.ty[1].p), p |-> x.ty[1].p]
       [] t.tk = "ts"   ->
            LET d == DaysFromCivil(t.dt.y, t.dt.mo, t.dt.da) IN
            IF x.ty[1].k = "s" THEN [k |-> "lit", lk |-> "ts", nb |-> nb, d |-> d, s |-> SecOf(t.tm), f |-> FracOf(t.tm, 6)]
            ELSE [k |-> "lit", lk |-> IF x.ty[1].n = "precisiontimestamp" THEN "pts" ELSE "ptstz", nb |-> nb,
                  d |-> d, s |-> SecOf(t.tm), f |-> FracOf(t.tm, x.ty[1].p), p |-> x.ty[1].p]
       [] t.tk = "dur"  -> [k |-> "lit", lk |-> "iday", nb |-> nb, dd |-> PartOf(t.parts, "d"), ss |-> PartOf(t.parts, "s"),
                            sub |-> IF x.ty[1].p = 0 THEN 0 ELSE PartOf(t.parts, UnitOf[x.ty[1].p]), p |-> x.ty[1].p]
=============================================================================
