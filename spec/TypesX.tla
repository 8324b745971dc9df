------------------------------- MODULE TypesX -------------------------------
(***************************************************************************)
(* C11.  All type terms up to a depth, grown one constructor at a time,    *)
(* each in every position a type can stand: read column, virtual-table     *)
(* column, cast target, call output, typed null, extension column,         *)
(* parameter of a user-defined type.  Bases selects the leaves; Mode "bad" *)
(* plants each malformed type text under every constructor instead.        *)
(***************************************************************************)
EXTENDS Gen
CONSTANTS Bases, Depth, Mode
VARIABLES t, d

Tbl == [urns |-> <<[ua |-> 1, ut |-> "/u"]>>,
        exts |-> <<[kd |-> "f", a |-> 1, u |-> 1, nm |-> "add", hs |-> FALSE, sg |-> ""],
                   [kd |-> "t", a |-> 1, u |-> 1, nm |-> "point", hs |-> FALSE, sg |-> ""],
                   [kd |-> "t", a |-> 2, u |-> 1, nm |-> "geo", hs |-> FALSE, sg |-> ""],
                   [kd |-> "t", a |-> 3, u |-> 1, nm |-> "point", hs |-> FALSE, sg |-> ""],
                   [kd |-> "t", a |-> 4, u |-> 1, nm |-> "date", hs |-> FALSE, sg |-> ""]>>]
Nus == {"R", "N", "U"}
S(n, nu) == [k |-> "s", n |-> n, nu |-> nu]
Leaves ==
  IF Bases = "all"
  THEN {S(n, nu) : n \in Range(SimpleNames), nu \in Nus}
       \cup {[k |-> "prec", n |-> n, nu |-> nu, p |-> p] : n \in Range(PrecNames), nu \in Nus, p \in 0..12}
       \cup {[k |-> "udt", nu |-> nu, a |-> a, ps |-> <<>>] : nu \in Nus, a \in 1..4}
       \cup {[k |-> "struct", nu |-> nu, es |-> <<>>] : nu \in Nus}
  ELSE {S("i64", "R"), S("string", "N"), S("fp32", "U"), [k |-> "prec", n |-> "interval_day", nu |-> "N", p |-> 6],
        [k |-> "udt", nu |-> "R", a |-> 3, ps |-> <<>>], [k |-> "struct", nu |-> "N", es |-> <<>>]}
Bad == {"i64<>", "struct", "list<>", "list<i64,i64>", "map<i64>", "map<i64,i64,i64>", "map<>", "i64??", "list", "map", "i65", "I64", "String", "NULL", "Boolean",
        "precisiontimestamp", "precisiontimestamp<>", "precisiontimestamp<13>", "precisiontimestamp<-1>", "precisiontime<a>", "precisiontime<3,3>", "precisiontime<3.0>",
        "interval_day<13>", "interval_day<4294967302>", "interval_day<99999999999999999999>", "interval_day<-2147483647>", "precisiontimestamptz<2147483648>", "precisiontime<4294967296>",
        "", "<i64>", "list<i64", "list i64>", "struct<,>", "struct<i64,>", "struct<i64 i64>", "struct<,i64>", "list?<>", "i64?<>", "list<i64>?",
        "u!nope", "point", "point#9", "geo#1", "geo@7", "point#2", "date#1", "u!date#3", "u!i64", "nope", "u!", "geo<", "geo<,>", "geo<i64,>", "geo<nope>", "geo<3.5>", "geo<9223372036854775808>", "geo<'a'>", "geo#", "geo@",
        "geo#x", "decimal<10, 2>", "varchar<5>", "fixedchar<5>", "fixedbinary<5>", "i64 ?", "list <i64>", "1x", "'i64'", "\"i64\"", "$0", "fp16", "interval_day<6", "interval_compound<6>", "i8x", "int", "any1"}
Wrap(x, nu) ==
  {[k |-> "list", nu |-> nu, e |-> x],
   [k |-> "map", nu |-> nu, key |-> x, val |-> S("i8", "R")], [k |-> "map", nu |-> nu, key |-> S("uuid", "N"), val |-> x],
   [k |-> "struct", nu |-> nu, es |-> <<x>>], [k |-> "struct", nu |-> nu, es |-> <<S("date", "N"), x>>], [k |-> "struct", nu |-> nu, es |-> <<x, S("i16", "R"), x>>],
   [k |-> "udt", nu |-> nu, a |-> 2, ps |-> <<[pt |-> x]>>], [k |-> "udt", nu |-> nu, a |-> 1, ps |-> <<[pi |-> -7], [pt |-> x], [pi |-> "9223372036854775807"], [pi |-> "-9223372036854775808"]>>]}
Init == d = 0 /\ t \in IF Mode = "bad" THEN {[k |-> "traw", tx |-> b] : b \in Bad} ELSE Leaves
Next == d < Depth /\ (t.k = "traw" => t.tx # "") /\ d' = d + 1 /\ \E nu \in (IF Mode = "bad" THEN {"R"} ELSE Nus) : t' \in Wrap(t, nu)

\* -- positions ---------------------------------------------------------------
I64 == S("i64", "R")
Col(nm, x) == [n |-> [id |-> nm], t |-> x]
Lf(cols) == Mk("read", [m |-> "dir"], <<>>, [tn |-> <<[id |-> "t"]>>, cols |-> cols])
Pj(e) == Mk("proj", [m |-> "map", is |-> <<1>>], <<Lf(<<Col("a", I64)>>)>>, [es |-> <<e>>])
One(r) == [ver |-> <<>>, tbl |-> Tbl, roots |-> <<[rk |-> "rel", rel |-> r]>>]
ReadP == One(Lf(<<Col("a", t), Col("b", I64), Col("c", t)>>))
VirtP == One(Mk("virt", [m |-> "dir"], <<>>, [cols |-> <<Col("a", t), Col("b", t)>>, rows |-> <<>>, flt |-> <<>>]))
CastP(fb) == One(Pj([k |-> "cast", e |-> Ref(0), fb |-> fb, to |-> t]))
CallP == One(Pj([k |-> "call", f |-> 1, args |-> <<Ref(0)>>, ty |-> <<t>>]))
NullP == One(Pj([k |-> "lit", lk |-> "null", nb |-> FALSE, nty |-> t]))
ExtP == One(Mk("xrel", [m |-> "dir"], <<>>, [xt |-> "leaf", item |-> [xn |-> [id |-> "Alpha"],
             xa |-> [pos |-> <<>>, named |-> <<>>, cols |-> <<[ck |-> "n", n |-> [id |-> "a"], t |-> t], [ck |-> "n", n |-> [id |-> "b"], t |-> I64]>>]]]))
Plans == <<ReadP, VirtP, CastP(0), CastP(1), CastP(2), CallP, NullP, ExtP>>
RECURSIVE Unspec(_)
Unspec(x) == CASE x.k = "list" -> x.nu = "U" \/ Unspec(x.e)
               [] x.k = "map" -> x.nu = "U" \/ Unspec(x.key) \/ Unspec(x.val)
               [] x.k = "struct" -> x.nu = "U" \/ \E i \in 1..Len(x.es) : Unspec(x.es[i])
               [] x.k = "udt" -> x.nu = "U" \/ \E i \in 1..Len(x.ps) : "pt" \in DOMAIN x.ps[i] /\ Unspec(x.ps[i].pt)
               [] x.k = "traw" -> FALSE
               [] OTHER -> x.nu = "U"
Good(p) ==
  LET dc == TLCEval(PrintDoc(p, DefaultOpts))
      tx == ToText(DocLines(dc, Canon), "  ") IN
  /\ ValidDoc(dc) /\ MeanDoc(dc) = p
  /\ IF Unspec(t) THEN PrintT(ToJson([c |-> "fmt", ast |-> p, opts |-> DefaultOpts, text |-> tx, back |-> <<p>>]))
     ELSE PrintT(ToJson([c |-> "rt", ast |-> p, text |-> tx]))
Rejected(p) ==
  LET dc == TLCEval(PrintDoc(p, DefaultOpts)) IN
  ~ValidDoc(dc) /\ PrintT(ToJson([c |-> "doc", ok |-> <<>>, text |-> ToText(DocLines(dc, Canon), "  ")]))
Check == IF Mode = "bad" THEN \A i \in 1..Len(Plans) : Rejected(Plans[i])
         ELSE (d = Depth \/ d < 2) => \A i \in 1..Len(Plans) : Good(Plans[i])
=============================================================================
