-------------------------------- MODULE NumX --------------------------------
(***************************************************************************)
(* C01, C06, C08.  Magnitude.  Every place where a plan holds a number,    *)
(* alone, with every boundary value of its range: the text shows it, and   *)
(* reading gives it back.                                                  *)
(***************************************************************************)
EXTENDS EmitK
CONSTANTS Nums, Slots
VARIABLES slot, n, o

MinW(x) == IF x < 128 THEN 8 ELSE IF x < 32768 THEN 16 ELSE 32
IntN(x) == [k |-> "lit", lk |-> "int", nb |-> FALSE, w |-> "i64", num |-> ToString(x), mw |-> MinW(x)]
Fx(a, u, nm) == [kd |-> "f", a |-> a, u |-> u, nm |-> nm, hs |-> FALSE, sg |-> ""]
Kx(kd, a, nm) == [Fx(a, 1, nm) EXCEPT !.kd = kd]
U1 == KTbl.urns
R2 == Read(2, Dir)
Pr(e) == Mk("proj", Dir, <<R2>>, [es |-> <<e>>])
CallA(a) == [k |-> "call", f |-> a, args |-> <<>>, ty |-> <<TI64>>]
Cast(t) == [k |-> "cast", e |-> Ref(0), fb |-> 0, to |-> t]
Udt(a, ps) == [k |-> "udt", nu |-> "R", a |-> a, ps |-> ps]
XLeaf(v) == Mk("xrel", Dir, <<>>, [xt |-> "leaf", item |-> [xn |-> [id |-> "Alpha"], xa |-> [pos |-> <<v>>, named |-> <<>>, cols |-> <<>>]]])
Other(a) == IF a = 1 THEN 2 ELSE 1
U32Slots == {"urn", "urn2", "fn", "fn2", "ty", "ty2", "var", "maj", "min", "pat"}
Tbl(s, x) ==
  CASE s = "urn" -> [urns |-> <<[ua |-> x, ut |-> "/u"]>>, exts |-> <<Fx(1, x, "f")>>]
    [] s = "urn2" -> SortTbl([urns |-> <<[ua |-> x, ut |-> "/u"], [ua |-> Other(x), ut |-> "/w"]>>, exts |-> <<Fx(1, x, "f"), Fx(2, Other(x), "f")>>])
    [] s = "fn" -> [urns |-> U1, exts |-> <<Fx(x, 1, "f")>>]
    [] s = "fn2" -> SortTbl([urns |-> U1, exts |-> <<Fx(x, 1, "f"), Fx(Other(x), 1, "f")>>])
    [] s = "ty" -> [urns |-> U1, exts |-> <<Kx("t", x, "ut")>>]
    [] s = "ty2" -> SortTbl([urns |-> U1, exts |-> <<Kx("t", x, "ut"), Kx("t", Other(x), "ut")>>])
    [] s = "var" -> SortTbl([urns |-> U1, exts |-> <<Kx("v", x, "tv"), Kx("v", Other(x), "tv")>>])
    [] s \in {"upar", "unpar"} -> [urns |-> U1, exts |-> <<Kx("t", 3, "ut")>>]
    [] OTHER -> [urns |-> <<>>, exts |-> <<>>]
Body(s, x) ==
  CASE s \in {"urn", "urn2"} -> Pr(CallA(1))
    [] s \in {"fn", "fn2"} -> Pr(CallA(x))
    [] s \in {"ty", "ty2"} -> Pr(Cast(Udt(x, <<>>)))
    [] s = "var" -> Pr(Cast([k |-> "s", n |-> "i64", nu |-> "N", tv |-> x]))
    [] s = "ref" -> Mk("filter", Dir, <<R2>>, [c |-> <<Ref(x)>>])
    [] s = "sref" -> Mk("sort", Dir, <<R2>>, [fs |-> <<[e |-> <<Ref(x)>>, d |-> "AscNullsLast"]>>])
    [] s = "xref" -> XLeaf([xk |-> "expr", e |-> Ref(x)])
    [] s = "prec" -> Pr(Cast([k |-> "prec", n |-> PickQ(x, 1, PrecNames), nu |-> "R", p |-> x]))
    [] s = "len" -> Pr(Cast([k |-> "len", n |-> PickQ(x, 1, <<"varchar", "fixedchar", "fixedbinary">>), nu |-> "R", p |-> x]))
    [] s = "dec" -> Pr(Cast([k |-> "dec", nu |-> "N", p |-> x, sc |-> x \div 2]))
    [] s = "upar" -> Pr(Cast(Udt(3, <<[pi |-> x]>>)))
    [] s = "unpar" -> Pr(Cast(Udt(3, <<[pi |-> 0 - x], [pt |-> TI64]>>)))
    [] s = "lim" -> Mk("fetch", Dir, <<R2>>, [lim |-> <<[fv |-> "e", e |-> IntN(x)]>>, off |-> <<>>])
    [] s = "off" -> Mk("fetch", Dir, <<R2>>, [lim |-> <<>>, off |-> <<[fv |-> "e", e |-> IntN(x)]>>])
    [] s = "int" -> Pr(IntN(x))
    [] s = "xint" -> XLeaf([xk |-> "int", num |-> ToString(x)])
    [] s = "xnint" -> XLeaf([xk |-> "int", num |-> ToString(0 - x)])
    [] OTHER -> R2
Vers(s, x) == IF s \in {"maj", "min", "pat"} THEN <<[maj |-> IF s = "maj" THEN x ELSE 0, min |-> IF s = "min" THEN x ELSE 1, pat |-> IF s = "pat" THEN x ELSE 2, prod |-> "", git |-> ""]>> ELSE <<>>
AllSlots == U32Slots \cup {"ref", "sref", "xref", "prec", "len", "dec", "upar", "unpar", "lim", "off", "int", "xint", "xnint"}

Init == slot \in (IF Slots = {} THEN AllSlots ELSE Slots) /\ n = -1 /\ o = "req"
Next == n = -1 /\ n' \in (IF slot = "var" THEN Nums \ {0} ELSE Nums) \cup (IF slot \in U32Slots THEN {U32} ELSE {}) /\ o' \in {"req", "all", "never"} /\ UNCHANGED slot
Spec == Init /\ [][Next]_<<slot, n, o>>
Emit == n = -1 \/
  LET p == [ver |-> Vers(slot, n), tbl |-> Tbl(slot, n), roots |-> <<[rk |-> "rel", rel |-> Body(slot, n)]>>]
      opts == [DefaultOpts EXCEPT !.an = o]
      d == TLCEval(PrintDoc(p, opts))
      v == ValidDoc(d) IN
  /\ (v /\ o # "never") => MeanDoc(d) = p
  /\ PrintT(ToJson([c |-> "fmt", ast |-> p, opts |-> opts, text |-> ToText(DocLines(d, Canon), "  "), back |-> IF v THEN <<MeanDoc(d)>> ELSE <<>>]))
=============================================================================
