------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* Extension tables, name resolution and types.                            *)
(*                                                                         *)
(* table  [urns |-> <<[ua, ut]>>, exts |-> <<[kd, a, u, nm, hs, sg]>>]     *)
(*   kd "f"unction / "t"ype / "v"ariation, a anchor, u URN anchor,         *)
(*   nm base name, hs/sg: has signature / signature                        *)
(* type   [k |-> "s", n, nu]  simple       [k |-> "list", nu, e]           *)
(*   [k |-> "map", nu, key, val]           [k |-> "struct", nu, es]        *)
(*   [k |-> "prec", n, nu, p] precisiontimestamp(tz)/time, interval_day    *)
(*   [k |-> "udt", nu, a, ps], ps of [pt |-> type] or [pi |-> int]         *)
(*   text-only (the parser has no syntax for them):                        *)
(*   [k |-> "len", n, nu, p] varchar... [k |-> "dec", nu, p, sc]           *)
(*   any type may carry tv, a type variation anchor; [k |-> "tbad", b]      *)
(* nu is "R" required, "N" nullable, "U" unspecified                       *)
(* surface: the same, with udt written [k |-> "udtS", nu, nm, an, ur, ps]  *)
(*   (an/ur = -1: absent) and [k |-> "udtMiss", nu, an, sh, ps]            *)
(***************************************************************************)
EXTENDS Base

Kinds == <<"f", "t", "v">>
Exts(tbl, kd)   == FilterQ(LAMBDA e : e.kd = kd, tbl.exts)
FullName(e)     == IF e.hs THEN <<e.nm, e.sg>> ELSE <<e.nm>>
FullText(e)     == IF e.hs THEN <<e.nm, ":", e.sg>> ELSE e.nm
Declared(tbl, kd, a) == \E i \in 1..Len(tbl.exts) : tbl.exts[i].kd = kd /\ tbl.exts[i].a = a
Lookup(tbl, kd, a) == LET i == CHOOSE i \in 1..Len(tbl.exts) : tbl.exts[i].kd = kd /\ tbl.exts[i].a = a
                                     /\ \A j \in 1..(i-1) : ~(tbl.exts[j].kd = kd /\ tbl.exts[j].a = a)
                      IN tbl.exts[i]
SameFull(tbl, kd, e) == {x \in Range(tbl.exts) : x.kd = kd /\ FullName(x) = FullName(e)}
SameBase(tbl, kd, e) == {x \in Range(tbl.exts) : x.kd = kd /\ x.nm = e.nm}

\* What the formatter writes for function anchor a under anchor visibility v
\* ("never" / "req" / "all"):  a surface function name.
DisplayFn(tbl, a, v) ==
  IF ~Declared(tbl, "f", a) THEN [miss |-> a, sh |-> v # "never"]
  ELSE LET e  == Lookup(tbl, "f", a)
           fu == Cardinality(SameFull(tbl, "f", e)) = 1
           bu == Cardinality(SameBase(tbl, "f", e)) = 1
           full == v = "all" \/ (v = "req" /\ ~bu)
           need == ~fu \/ (~e.hs /\ ~bu)
       IN [nm |-> e.nm, hs |-> full /\ e.hs, sg |-> IF full THEN e.sg ELSE "",
           an |-> IF v = "all" \/ (v = "req" /\ need) THEN a ELSE -1, ur |-> -1]

\* The declarations a written function name may denote.
FnMatches(tbl, f) ==
  {e.a : e \in {x \in Range(tbl.exts) :
      /\ x.kd = "f"
      /\ IF f.hs THEN x.hs /\ x.nm = f.nm /\ x.sg = f.sg ELSE x.nm = f.nm
      /\ f.an # -1 => x.a = f.an}}
\* a URN anchor is no help in choosing among them, but it must be the right one
UrnFits(tbl, kd, a, ur) == ur = -1 \/ Lookup(tbl, kd, a).u = ur
ResolveFn(tbl, f)  == CHOOSE a \in FnMatches(tbl, f) : TRUE
ResolvesFn(tbl, f) == Cardinality(FnMatches(tbl, f)) = 1 /\ UrnFits(tbl, "f", ResolveFn(tbl, f), f.ur)

\* Types: resolved by name, or by anchor with the name checked.
TyMatches(tbl, t) == {e.a : e \in {x \in Range(tbl.exts) : x.kd = "t" /\ x.nm = t.nm
                                                            /\ (t.an # -1 => x.a = t.an)}}
ResolveTy(tbl, t)  == CHOOSE a \in TyMatches(tbl, t) : TRUE
ResolvesTy(tbl, t) == Cardinality(TyMatches(tbl, t)) = 1 /\ UrnFits(tbl, "t", ResolveTy(tbl, t), t.ur)

----------------------------------------------------------------------------
SimpleNames == <<"boolean", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "binary",
                 "timestamp", "timestamp_tz", "date", "time", "interval_year", "uuid">>
PrecNames   == <<"precisiontimestamp", "precisiontimestamptz", "precisiontime", "interval_day">>
\* user-defined types with these names need the u! prefix
BuiltIn == Range(SimpleNames) \cup Range(PrecNames) \cup {"list", "map", "struct", "List"}
UpperOf == ("list" :> "LIST") @@ ("map" :> "Map") @@ ("struct" :> "STRUCT")
           @@ ("precisiontimestamp" :> "PRECISIONTIMESTAMP") @@ ("precisiontimestamptz" :> "PrecisionTimestampTZ")
           @@ ("precisiontime" :> "PrecisionTime") @@ ("interval_day" :> "INTERVAL_DAY")

\* Print: type + table + options -> surface type
RECURSIVE TypeOut(_, _, _), TypeOut0(_, _, _)
VarOut(a, tbl, o) ==
  IF Declared(tbl, "v", a)
  THEN LET e == Lookup(tbl, "v", a)
           u == Cardinality(SameFull(tbl, "v", e)) = 1
       IN [miss |-> FALSE, nm |-> e.nm, an |-> IF o.an = "all" \/ (o.an = "req" /\ ~u) THEN a ELSE -1]
  ELSE [miss |-> TRUE, an |-> IF o.an # "never" THEN a ELSE -1]
PrintParam(p, tbl, o) == IF "pt" \in DOMAIN p THEN [pt |-> TypeOut(p.pt, tbl, o)] ELSE p
TypeOut(t, tbl, o) == IF "tv" \in DOMAIN t THEN ("va" :> VarOut(t.tv, tbl, o)) @@ TypeOut0(t, tbl, o) ELSE TypeOut0(t, tbl, o)
TypeOut0(t, tbl, o) ==
  CASE t.k = "list"   -> [t EXCEPT !.e = TypeOut(@, tbl, o)]
    [] t.k = "map"    -> [t EXCEPT !.key = TypeOut(@, tbl, o), !.val = TypeOut(@, tbl, o)]
    [] t.k = "struct" -> [t EXCEPT !.es = Map(LAMBDA x : TypeOut(x, tbl, o), t.es)]
    [] t.k = "udref"  -> TypeOut([k |-> "udt", nu |-> "R", a |-> t.a, ps |-> <<>>], tbl, o)     \* the deprecated bare reference
    [] t.k = "udt"    ->
         LET ps == Map(LAMBDA p : PrintParam(p, tbl, o), t.ps) IN
         IF Declared(tbl, "t", t.a)
         THEN LET e == Lookup(tbl, "t", t.a)
                  u == Cardinality(SameFull(tbl, "t", e)) = 1
              IN [k |-> "udtS", nu |-> t.nu, nm |-> e.nm,
                  an |-> IF o.an = "all" \/ (o.an = "req" /\ ~u) THEN t.a ELSE -1, ur |-> -1, ps |-> ps]
         ELSE [k |-> "udtMiss", nu |-> t.nu, an |-> t.a, sh |-> o.an # "never", ps |-> ps]
    [] OTHER -> t

ShowNu(nu) == CASE nu = "R" -> "" [] nu = "N" -> "?" [] OTHER -> <<[u |-> 8265], [warn |-> 1]>>
\* nullability, then the type variation
ShowNV(t) == <<ShowNu(t.nu), IF "va" \in DOMAIN t
                             THEN <<"[", IF t.va.miss THEN [bad |-> "type_variation"] ELSE t.va.nm, IF t.va.an # -1 THEN <<"#", t.va.an>> ELSE "", "]">> ELSE "">>
RECURSIVE ShowT(_, _)
ShowIn(t, y) == IF t.k = "tgone" THEN [bad |-> "Parameter"] ELSE ShowT(t, y)     \* an element type of a list or map
ShowParams(ps, y) ==
  IF ps = <<>> THEN ""
  ELSE <<"<", Join(Map(LAMBDA p : IF "pt" \in DOMAIN p THEN ShowT(p.pt, y)
                                  ELSE IF "pi" \in DOMAIN p THEN p.pi
                                  ELSE [bad |-> p.pbad], ps), <<",", Sp(y.tc)>>), ">">>
Kw(n, y) == IF y.up = 1 THEN UpperOf[n] ELSE n
ShowT(t, y) ==
  CASE t.k = "s"      -> <<t.n, ShowNV(t)>>
    [] t.k = "list"   -> <<Kw("list", y), ShowNV(t), "<", ShowIn(t.e, y), ">">>
    [] t.k = "map"    -> <<Kw("map", y), ShowNV(t), "<", ShowIn(t.key, y), ",", Sp(y.tc), ShowIn(t.val, y), ">">>
    [] t.k = "struct" -> <<Kw("struct", y), ShowNV(t), "<",
                           Join(Map(LAMBDA x : ShowT(x, y), t.es), <<",", Sp(y.tc)>>), ">">>
    [] t.k = "prec"   -> <<Kw(t.n, y), ShowNV(t), "<", t.p, ">">>
    [] t.k = "udtS"   -> <<IF y.ub = 1 \/ t.nm \in BuiltIn THEN "u!" ELSE "", t.nm,
                           IF t.an # -1 THEN <<"#", Sp(y.an), t.an>> ELSE "",
                           IF t.ur # -1 THEN <<"@", Sp(y.an), t.ur>> ELSE "",
                           ShowNV(t), ShowParams(t.ps, y)>>
    [] t.k = "udtMiss" -> <<[bad |-> "type"], IF t.sh THEN <<"#", t.an>> ELSE "", ShowNV(t), ShowParams(t.ps, y)>>
    [] t.k = "len"    -> <<t.n, ShowNV(t), "<", t.p, ">">>
    [] t.k = "dec"    -> <<"decimal", ShowNV(t), "<", t.p, ", ", t.sc, ">">>
    [] t.k = "tbad"   -> [bad |-> t.b]
    [] t.k = "tgone"  -> [bad |-> "Type"]
    [] t.k = "traw"   -> t.tx          \* text that is no type
    [] OTHER          -> "<?type?>"

\* Can the parser read the surface type, and what does it denote?
RECURSIVE ValidT(_, _)
ValidT(t, tbl) ==
  CASE "va" \in DOMAIN t -> FALSE      \* no type variation can be read
    [] t.k = "s"      -> TRUE
    [] t.k = "list"   -> ValidT(t.e, tbl)
    [] t.k = "map"    -> ValidT(t.key, tbl) /\ ValidT(t.val, tbl)
    [] t.k = "struct" -> \A i \in 1..Len(t.es) : ValidT(t.es[i], tbl)
    [] t.k = "prec"   -> t.p >= 0 /\ t.p <= 12
    [] t.k = "udtS"   -> ResolvesTy(tbl, t)
                         /\ \A i \in 1..Len(t.ps) : "pi" \in DOMAIN t.ps[i] \/ ("pt" \in DOMAIN t.ps[i] /\ ValidT(t.ps[i].pt, tbl))
    [] OTHER -> FALSE
RECURSIVE MeanT(_, _)
MeanT(t, tbl) ==
  CASE t.k = "list"   -> [t EXCEPT !.e = MeanT(@, tbl)]
    [] t.k = "map"    -> [t EXCEPT !.key = MeanT(@, tbl), !.val = MeanT(@, tbl)]
    [] t.k = "struct" -> [t EXCEPT !.es = Map(LAMBDA x : MeanT(x, tbl), t.es)]
    [] t.k = "udtS"   -> [k |-> "udt", nu |-> t.nu, a |-> ResolveTy(tbl, t),
                          ps |-> Map(LAMBDA p : IF "pt" \in DOMAIN p THEN [pt |-> MeanT(p.pt, tbl)] ELSE p, t.ps)]
    [] OTHER -> t
=============================================================================
