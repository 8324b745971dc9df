------------------------------- MODULE Exprs -------------------------------
(***************************************************************************)
(* Expressions.                                                            *)
(* expression  [k |-> "ref", i]      literal (see Lits)                    *)
(*   [k |-> "call", f, args, ty]  f function anchor, ty = <<>> / <<type>>  *)
(*   [k |-> "cast", e, fb, to]  fb 0 unspecified, 1 return null, 2 throw   *)
(*   [k |-> "ite", br, els]  br = <<[c, t], ...>>                          *)
(*   [k |-> "xbad", b]  something the text form cannot show (token b)      *)
(* surface: calls carry a written name [nm, hs, sg, an, ur] in fn          *)
(***************************************************************************)
EXTENDS Lits

Ref(i) == [k |-> "ref", i |-> i]

\* function options are shown after the arguments; no text denotes them
ShownOption(q) == [k |-> "xraw", tx |-> <<q.n, [u |-> 8658], "[", Map(LAMBDA i : <<IF i > 1 THEN ", " ELSE "", q.ps[i]>>, Tab(LAMBDA i : i, Len(q.ps))), "]">>]
RECURSIVE PrintE(_, _, _)
PrintE(e, tbl, o) ==
  CASE e.k = "lit"  -> PrintLit(e, tbl, o)
    [] e.k = "call" -> [k |-> "call", fn |-> DisplayFn(tbl, e.f, o.an),
                        args |-> Map(LAMBDA a : PrintE(a, tbl, o), e.args) \o (IF "opts" \in DOMAIN e THEN Map(ShownOption, e.opts) ELSE <<>>),
                        ty |-> Map(LAMBDA t : TypeOut(t, tbl, o), e.ty)]
    [] e.k = "cast" -> [k |-> "cast", e |-> PrintE(e.e, tbl, o), fb |-> e.fb, to |-> TypeOut(e.to, tbl, o)]
    [] e.k = "ite"  -> [k |-> "ite", br |-> Map(LAMBDA b : [c |-> PrintE(b.c, tbl, o), t |-> PrintE(b.t, tbl, o)], e.br),
                        els |-> PrintE(e.els, tbl, o)]
    [] OTHER -> e

ShowFn(f, y) ==
  IF "miss" \in DOMAIN f THEN <<[bad |-> "function"], IF f.sh THEN <<"#", f.miss>> ELSE "">>
  ELSE <<f.nm, IF f.hs THEN <<":", f.sg>> ELSE "",
         IF f.an # -1 THEN <<Sp(y.ca), "#", Sp(y.an), f.an>> ELSE "",
         IF f.ur # -1 THEN <<Sp(y.ca), "@", Sp(y.an), f.ur>> ELSE "", Sp(y.ca)>>
RECURSIVE ShowE(_, _)
ShowE(e, y) ==
  CASE e.k = "ref"  -> <<"$", e.i>>
    [] e.k = "lit"  -> ShowLit(e, y)
    [] e.k = "call" -> <<ShowFn(e.fn, y), "(", Commas(Map(LAMBDA a : ShowE(a, y), e.args), y), ")",
                         IF e.ty = <<>> THEN [bad |-> "OutputType"] ELSE <<":", Sp(y.cl), ShowT(e.ty[1], y)>> >>
    [] e.k = "cast" -> <<"(", Sp(y.ip), ShowE(e.e, y), Sp(y.ip), ")", Sp(y.ca), "::", Sp(y.ca),
                         CASE e.fb = 0 -> "" [] e.fb = 1 -> "?" [] e.fb = 2 -> "!" [] OTHER -> [bad |-> "Cast"],
                         Sp(y.ca), ShowT(e.to, y)>>
    [] e.k = "ite"  -> <<"if_then(", Sp(y.ip),
                         Map(LAMBDA b : <<ShowE(b.c, y), Arrow("->", y), ShowE(b.t, y), Sp(y.bc), ",", Sp(y.ac)>>, e.br),
                         "_", Arrow("->", y), ShowE(e.els, y), ")">>
    [] e.k \in {"xbad", "xgone"} -> [bad |-> e.b]
    [] e.k = "xraw" -> e.tx                  \* shown, though no text denotes it
    [] OTHER -> "<?expr?>"

RECURSIVE ValidE(_, _)
ValidE(e, tbl) ==
  CASE e.k = "ref"  -> TRUE
    [] e.k = "lit"  -> ValidLit(e, tbl)
    [] e.k = "call" -> /\ "nm" \in DOMAIN e.fn /\ ResolvesFn(tbl, e.fn)
                       /\ e.ty # <<>> /\ ValidT(e.ty[1], tbl)
                       /\ \A i \in 1..Len(e.args) : ValidE(e.args[i], tbl)
    [] e.k = "cast" -> e.fb \in 0..2 /\ ValidE(e.e, tbl) /\ ValidT(e.to, tbl)
    [] e.k = "ite"  -> /\ e.br # <<>> /\ ValidE(e.els, tbl)
                       /\ \A i \in 1..Len(e.br) : ValidE(e.br[i].c, tbl) /\ ValidE(e.br[i].t, tbl)
    [] OTHER -> FALSE
RECURSIVE MeanE(_, _)
MeanE(e, tbl) ==
  CASE e.k = "ref"  -> e
    [] e.k = "lit"  -> MeanLit(e, tbl)
    [] e.k = "call" -> [k |-> "call", f |-> ResolveFn(tbl, e.fn), args |-> Map(LAMBDA a : MeanE(a, tbl), e.args),
                        ty |-> Map(LAMBDA t : MeanT(t, tbl), e.ty)]
    [] e.k = "cast" -> [k |-> "cast", e |-> MeanE(e.e, tbl), fb |-> e.fb, to |-> MeanT(e.to, tbl)]
    [] e.k = "ite"  -> [k |-> "ite", br |-> Map(LAMBDA b : [c |-> MeanE(b.c, tbl), t |-> MeanE(b.t, tbl)], e.br),
                        els |-> MeanE(e.els, tbl)]
    [] OTHER -> e
=============================================================================
