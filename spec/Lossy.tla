-------------------------------- MODULE Lossy --------------------------------
(***************************************************************************)
(* C08.  Parts of a plan the text form has no place for.  The relation is  *)
(* otherwise supported, so Print shows it without an error; a formatter    *)
(* that cannot show the extra part has to say so.  One behaviour per part, *)
(* relation and position in the tree; kf names the finding it belongs to.  *)
(***************************************************************************)
EXTENDS Doc
VARIABLE st
I64 == [k |-> "s", n |-> "i64", nu |-> "R"]
Dir == [m |-> "dir"]
Two == [m |-> "map", is |-> <<1, 0>>]
C(n) == [n |-> [id |-> n], t |-> I64]
One(n) == [k |-> "lit", lk |-> "int", nb |-> FALSE, w |-> "i64", num |-> n, mw |-> 16]
B(k, em, ins, x) == [k |-> k, em |-> em, enh |-> <<>>, opt |-> <<>>, ins |-> ins, x |-> x]
Rd == B("read", Dir, <<>>, [tn |-> <<[id |-> "t"]>>, cols |-> <<C("a"), C("b")>>])
Vt == B("virt", Dir, <<>>, [cols |-> <<C("a"), C("b")>>, rows |-> << <<One("1"), One("2")>> >>, flt |-> <<>>])
Er == B("extread", Dir, <<>>, [cols |-> <<C("a"), C("b")>>, det |-> <<[xn |-> [id |-> "Alpha"], xa |-> [pos |-> <<>>, named |-> <<>>, cols |-> <<>>]]>>])
Xr(xt, ins) == B("xrel", Dir, ins, [xt |-> xt, item |-> [xn |-> [id |-> "Beta"], xa |-> [pos |-> <<>>, named |-> <<>>, cols |-> <<[ck |-> "n", n |-> [id |-> "a"], t |-> I64], [ck |-> "n", n |-> [id |-> "b"], t |-> I64]>>]]])
Call == [k |-> "call", f |-> 1, args |-> <<Ref(0)>>, ty |-> <<I64>>]
Ag == B("agg", Dir, <<Rd>>, [ge |-> <<Ref(0)>>, gs |-> << <<0>> >>, ms |-> << <<Call>> >>])
With(r, f, v) == [r EXCEPT !.x = (f :> v) @@ r.x]
Parts == {[kf |-> "read-filter", r |-> With(Rd, "flt", <<One("5")>>)],
          [kf |-> "measure-filter", r |-> With(Ag, "mflt", <<One("5")>>)],
          [kf |-> "measure-phase", r |-> With(Ag, "phase", 2)],
          [kf |-> "measure-invocation", r |-> With(Ag, "invocation", 2)],
          [kf |-> "measure-sorts", r |-> With(Ag, "msorts", 1)],
          [kf |-> "emit-virtual", r |-> [Vt EXCEPT !.em = Two]],
          [kf |-> "emit-extread", r |-> [Er EXCEPT !.em = Two]],
          [kf |-> "emit-extension", r |-> [Xr("leaf", <<>>) EXCEPT !.em = Two]],
          [kf |-> "emit-extension", r |-> [Xr("single", <<Rd>>) EXCEPT !.em = Two]],
          [kf |-> "emit-extension", r |-> [Xr("multi", <<Rd, Vt>>) EXCEPT !.em = Two]],
          [kf |-> "read-projection", r |-> With(Rd, "proj", 1)], [kf |-> "read-projection", r |-> With(Vt, "proj", 1)],
          [kf |-> "table-extension", r |-> With(Rd, "tadv", 1)],
          [kf |-> "schema-nullable", r |-> With(Rd, "snull", 1)], [kf |-> "schema-nullable", r |-> With(Vt, "snull", 1)],
          [kf |-> "common-extension", r |-> [cadv |-> 1] @@ Rd], [kf |-> "common-extension", r |-> [cadv |-> 1] @@ Ag],
          [kf |-> "common-hint", r |-> [hint |-> 1] @@ Rd], [kf |-> "common-hint", r |-> [hint |-> 1] @@ Ag], [kf |-> "common-hint", r |-> [hint |-> 1] @@ Xr("single", <<Rd>>)],
          [kf |-> "best-effort-filter", r |-> With(Rd, "beflt", 1)], [kf |-> "best-effort-filter", r |-> With(Vt, "beflt", 1)], [kf |-> "best-effort-filter", r |-> With(Er, "beflt", 1)],
          [kf |-> "schema-variation", r |-> With(Rd, "stv", 1)], [kf |-> "schema-variation", r |-> With(Vt, "stv", 1)],
          [kf |-> "plan-extension", r |-> Rd], [kf |-> "plan-type-urls", r |-> Rd], [kf |-> "plan-type-aliases", r |-> Rd], [kf |-> "plan-parameter-bindings", r |-> Rd],
          \* what reads back as something else
          [kf |-> "", r |-> With(Ag, "ge", <<Call>>)],
          [kf |-> "", r |-> [Ag EXCEPT !.x = [ge |-> <<Ref(1), Call>>, gs |-> << <<0, 1>> >>, ms |-> << <<Call>> >>]]],
          [kf |-> "", r |-> [Ag EXCEPT !.x = [ge |-> <<Ref(1), Ref(1)>>, gs |-> << <<0>>, <<1>> >>, ms |-> <<>>]]],
          [kf |-> "", r |-> [Ag EXCEPT !.x = [ge |-> <<Ref(1), Ref(0), Ref(1)>>, gs |-> << <<0, 1, 2>> >>, ms |-> << <<Call>> >>]]],
          [kf |-> "", r |-> [Ag EXCEPT !.x = [ge |-> <<Ref(1), Ref(0)>>, gs |-> << <<0>> >>, ms |-> << <<Call>> >>]]],
          \* and the same relations with nothing extra
          [kf |-> "", r |-> Rd], [kf |-> "", r |-> Vt], [kf |-> "", r |-> Er], [kf |-> "", r |-> Ag], [kf |-> "", r |-> Xr("multi", <<Rd, Vt>>)]}
Wraps == {"rel", "root", "filter", "cross"}
Wrap(w, r) == CASE w = "rel" -> [rk |-> "rel", rel |-> r]
                [] w = "root" -> [rk |-> "root", names |-> <<>>, rel |-> r]
                [] w = "filter" -> [rk |-> "rel", rel |-> B("filter", Dir, <<r>>, [c |-> <<One("1")>>])]
                [] OTHER -> [rk |-> "rel", rel |-> B("cross", Dir, <<Rd, r>>, NoX)]
Init == st \in Parts \X Wraps
Next == FALSE /\ st' = st
Tb == [urns |-> <<[ua |-> 1, ut |-> "/u"]>>, exts |-> <<[kd |-> "f", a |-> 1, u |-> 1, nm |-> "sum", hs |-> FALSE, sg |-> ""]>>]
Top(kf) == CASE kf = "plan-extension" -> [padv |-> 1] [] kf = "plan-type-urls" -> [urls |-> 1] [] kf = "plan-type-aliases" -> [aliases |-> 1] [] kf = "plan-parameter-bindings" -> [binds |-> 1] [] OTHER -> [none |-> 0]
Check == PrintT(ToJson([c |-> "lossy", kf |-> st[1].kf, ast |-> [ver |-> <<>>, tbl |-> Tb, roots |-> <<Wrap(st[2], st[1].r)>>] @@ Top(st[1].kf)]))
=============================================================================
