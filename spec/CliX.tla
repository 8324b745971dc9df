-------------------------------- MODULE CliX --------------------------------
(***************************************************************************)
(* C16.  The command line.  The state is what lies on the table: the form  *)
(* (text, json, yaml, pb) a plan is currently written in, or junk.  A step *)
(* is one invocation; its input is the output of the step before.          *)
(* Mode "chain": random plans (one in four damaged), random chains.        *)
(* Mode "cfg": every combination of options and file names on one plan.    *)
(* Mode "std": plans in the spellings of JSON other writers use, with     *)
(*   extension payloads written out, and what is left of JSON when its end *)
(*   is missing or something follows it.                                   *)
(* Mode "flt": numbers with many digits, from every form to every form.     *)
(* Mode "big": plans of many sizes, round through all four forms.          *)
(* Mode "bad": input that is no plan, in every form.                       *)
(***************************************************************************)
EXTENDS Degrade, Surf
CONSTANT Mode
VARIABLE cf
Forms == <<"text", "json", "yaml", "pb">>
OptOf == [text |-> <<"text", "TEXT", "Text">>, json |-> <<"json", "JSON">>, yaml |-> <<"yaml", "Yaml">>, pb |-> <<"protobuf", "proto", "pb", "PB">>]
PathOf == [text |-> <<"a.substrait", "d/x.txt", "p.json.txt", "A.SUBSTRAIT", "a b.Txt">>, json |-> <<"x.json", "x.pb.JSON", "./y.Json">>,
           yaml |-> <<"q.yaml", "q.yml", "q.YML", "x.json.yaml">>, pb |-> <<"p.pb", "p.proto", "p.protobuf", "P.Pb">>]
NoForm == <<"-", "noext", "x.bin", ".json", "x.", "x.substrait.bak", "json", "d.json/x">>
BadOpt == <<"xml", "yml", "txt", "", "jsn">>
\* -- what the arguments say ---------------------------------------------------
\* a choice is [how |-> "opt" | "path" | "both" | "none" | "badopt", f |-> form it selects ("" if none), o, p]
Choose(f, s) ==
  CASE R(s, 1, 3) = 0 -> [f |-> f, o |-> <<PickQ(s, 2, OptOf[f])>>, p |-> PickQ(s, 3, NoForm)]
    [] R(s, 1, 3) = 1 -> [f |-> f, o |-> <<>>, p |-> PickQ(s, 3, PathOf[f])]
    [] OTHER -> [f |-> f, o |-> <<PickQ(s, 2, OptOf[f])>>, p |-> PickQ(s, 3, PathOf[PickQ(s, 4, Forms)])]     \* the option wins
Unclear(s) == IF Flip(s, 1, 50) THEN [f |-> "", o |-> <<>>, p |-> PickQ(s, 2, NoForm)] ELSE [f |-> "", o |-> <<PickQ(s, 3, BadOpt)>>, p |-> PickQ(s, 4, PathOf[PickQ(s, 5, Forms)])]
\* -- one invocation -------------------------------------------------------------
Conv(i, o, slt, vb) == [cmd |-> "convert", i |-> i.p, o |-> o.p, f |-> i.o, t |-> o.o, slt |-> slt, vb |-> vb]
\* reading content of form c as form f: does it give the plan back?
Reads(c, f) == c = f
Surely(c, f) == Reads(c, f) \/ c = "text" \/ f = "text" \/ (f = "json" /\ c = "yaml") \/ f = ""         \* the outcome is determined
RECURSIVE Chain(_, _, _, _)
Chain(c, s, n, e) ==         \* e: the plan has no roots (its encodings are next to nothing)
  IF n = 0 THEN <<>>
  ELSE LET t == PickQ(s, 1, Forms)
           wrong == ~e /\ Flip(s, 2, 8)
           f == IF wrong THEN PickQ(s, 3, Forms) ELSE c
           nof == Flip(s, 4, 5)
           not == Flip(s, 5, 5)
           slt == Flip(s, 6, 25)
           i == IF nof THEN Unclear(Sub(s, 7)) ELSE Choose(f, Sub(s, 7))
           o == IF not THEN Unclear(Sub(s, 8)) ELSE Choose(t, Sub(s, 8))
           ok == ~nof /\ ~not /\ Reads(c, f) IN
       IF c = "text" /\ Flip(s, 9, 20) THEN <<[a |-> [cmd |-> "validate", i |-> PickQ(s, 10, NoForm), o |-> PickQ(s, 11, NoForm), f |-> <<>>, t |-> <<>>, slt |-> FALSE, vb |-> Flip(s, 12, 20)],
                                               ok |-> TRUE, out |-> "text", slt |-> FALSE]>> \o Chain("text", Sub(s, 13), n - 1, e)
       ELSE IF ~(nof \/ not) /\ ~Surely(c, f) THEN Chain(c, Sub(s, 14), n - 1, e)
       ELSE <<[a |-> Conv(i, o, slt, Flip(s, 12, 20)), ok |-> ok, out |-> IF ok THEN t ELSE "", slt |-> slt]>>
            \o (IF ok THEN Chain(t, Sub(s, 15), n - 1, e) ELSE <<>>)
RECURSIVE NoExt(_)
NoExt(r) == r.k \in {"gone", "unsup"} \/ (r.k \notin {"xrel", "extread"} /\ r.enh = <<>> /\ r.opt = <<>> /\ \A i \in 1..Len(r.ins) : NoExt(r.ins[i]))
Plain(p) == \A i \in 1..Len(p.roots) : p.roots[i].rk # "none" /\ (p.roots[i].rel.k = "gone" \/ NoExt(p.roots[i].rel))
Txt(p, lt) == Canonical(p, [DefaultOpts EXCEPT !.lt = lt])
Emit(p, first, c, steps, bin) ==
  PrintT(ToJson([c |-> "cli", seed |-> seed, ast |-> <<p>>, first |-> c, input |-> first, steps |-> steps, text |-> Txt(p, "req"), ltext |-> Txt(p, "all"), bin |-> bin]))
InitC == seed \in (IF Mode \in {"chain", "std"} THEN Lo..(Lo + 15) ELSE {Lo}) /\ cf \in (IF Mode # "cfg" THEN {0} ELSE
           [fo : {"", "text", "pb", "json", "bad"}, fp : {"text", "json", "yaml", "pb", "none"}, to : {"", "text", "json", "yaml", "pb", "bad"}, tp : {"text", "json", "yaml", "pb", "none"}, w : 1..5])
NextC == Mode \in {"chain", "std"} /\ seed + 16 <= Hi /\ seed' = seed + 16 /\ cf' = cf
ChainCase ==
  LET s == Sub(seed, 3)
      dam == R(s, 1, 4) = 0
      g == TLCEval(GenPlan(s, R(s, 2, Depth + 1)))
      p == IF dam THEN TLCEval(Damage(g, Sub(s, 4))) ELSE g
      c == IF dam THEN "pb" ELSE PickQ(s, 5, Forms)
      y == GenStyle(Sub(s, 6))
      d == TLCEval(Variant(PrintDoc(p, DefaultOpts), Sub(s, 7)))
      first == IF c = "text" THEN LaidOut(DocLines(d, y), y, GenLayout(Sub(s, 8))) ELSE <<>>
      steps == IF dam THEN <<[a |-> Conv(Choose("pb", Sub(s, 9)), Choose("text", Sub(s, 10)), Flip(s, 11, 30), FALSE), ok |-> TRUE, out |-> "text", slt |-> Flip(s, 11, 30)]>>
               ELSE Chain(c, Sub(s, 12), 1 + R(s, 13, 5), p.roots = <<>>)
  IN Emit(p, first, c, steps, Plain(p) /\ R(s, 14, 12) = 0)
Pick(q, w) == q[((w - 1) % Len(q)) + 1]
CfgCase ==
  LET p == TLCEval(GenPlan(Sub(77, 3), 2))
      In == [f |-> IF cf.fo = "" THEN (IF cf.fp = "none" THEN "" ELSE cf.fp) ELSE IF cf.fo = "bad" THEN "" ELSE cf.fo,
             o |-> IF cf.fo = "" THEN <<>> ELSE IF cf.fo = "bad" THEN <<Pick(BadOpt, cf.w)>> ELSE <<Pick(OptOf[cf.fo], cf.w)>>,
             p |-> IF cf.fp = "none" THEN Pick(NoForm, cf.w) ELSE Pick(PathOf[cf.fp], cf.w)]
      Out == [f |-> IF cf.to = "" THEN (IF cf.tp = "none" THEN "" ELSE cf.tp) ELSE IF cf.to = "bad" THEN "" ELSE cf.to,
              o |-> IF cf.to = "" THEN <<>> ELSE IF cf.to = "bad" THEN <<Pick(BadOpt, cf.w)>> ELSE <<Pick(OptOf[cf.to], cf.w)>>,
              p |-> IF cf.tp = "none" THEN Pick(NoForm, cf.w + 3) ELSE Pick(PathOf[cf.tp], cf.w)]
      ok == In.f = "text" /\ Out.f # ""
  IN Emit(p, Txt(p, "req"), "text", <<[a |-> Conv(In, Out, FALSE, FALSE), ok |-> ok, out |-> IF ok THEN Out.f ELSE "", slt |-> FALSE]>>, FALSE)
Bads == <<[f |-> "text", by |-> <<255, 254>>], [f |-> "text", by |-> <<70, 111, 111>>], [f |-> "text", by |-> <<61, 61, 61, 32, 80>>], [f |-> "json", by |-> <<123>>], [f |-> "json", by |-> <<>>], [f |-> "json", by |-> <<91, 93>>],
          [f |-> "json", by |-> <<255>>], [f |-> "yaml", by |-> <<58, 58, 32, 123>>], [f |-> "yaml", by |-> <<45, 32, 49>>], [f |-> "pb", by |-> <<255>>], [f |-> "pb", by |-> <<26, 200>>],
          [f |-> "pb", by |-> <<26, 5, 1, 2>>]>>
BadCase == seed >= 0 /\ \A b \in 1..Len(Bads) : \A t \in 1..4 : \A w \in 1..6 :
  LET x == Bads[b]
      i == Choose(x.f, Sub(w, b)) o == Choose(Forms[t], Sub(w, b + 50))
      Go(a) == PrintT(ToJson([c |-> "cli", ast |-> <<>>, first |-> "bytes", input |-> x.by, steps |-> <<[a |-> a, ok |-> FALSE, out |-> "", slt |-> FALSE]>>, text |-> <<>>, ltext |-> <<>>, bin |-> TRUE])) IN
  IF x.f = "text" /\ t = 1 THEN Go([cmd |-> "validate", i |-> "-", o |-> "-", f |-> <<>>, t |-> <<>>, slt |-> FALSE, vb |-> FALSE])
  ELSE Go(Conv(i, o, FALSE, FALSE))
StdCase ==
  LET s == Sub(seed, 5)
      p == TLCEval(GenPlan(s, R(s, 2, Depth + 1)))
      st == [str64 |-> Flip(s, 20, 50), nums |-> Flip(s, 21, 50), snake |-> Flip(s, 22, 50), all |-> Flip(s, 23, 50), pretty |-> Flip(s, 24, 50)]
      In == Choose("json", Sub(s, 9))
      out == PickQ(s, 25, <<"json", "yaml", "pb">>)
      bad == Flip(s, 26, 25)
      dm == PickQ(s, 27, <<"cut", "cut", "cut", " x", "{}", "]", "}", "\n{\"relations\":[]}", ",">>)
      base == [c |-> "cli", seed |-> seed, ast |-> <<p>>, first |-> "json", input |-> <<>>, text |-> <<>>, ltext |-> <<>>, bin |-> R(s, 28, 30) = 0 /\ Plain(p)]
      One(ok) == <<[a |-> Conv(In, Choose(out, Sub(s, 10)), FALSE, FALSE), ok |-> ok, out |-> IF ok THEN out ELSE "", slt |-> FALSE]>>
      form == IF Flip(s, 29, 70) THEN [js |-> st] ELSE [none |-> 0] IN
  IF bad THEN PrintT(ToJson(base @@ form @@ [steps |-> One(FALSE), dmg |-> dm, at |-> R(s, 30, 1000)]))
  ELSE PrintT(ToJson(base @@ form @@ [steps |-> One(TRUE)]))
\* floating-point numbers that take all their digits to tell apart from their neighbours
Hard == <<"0.12243994319544121", "10928588.983213553", "0.000027172904355510014", "-0.0000000009207052653743289">>
Full == <<"0.30000000000000004", "123456789.12345678", "2.718281828459045", "2251799813685249.5">>
FltCase == seed >= 0 /\ \A hard \in BOOLEAN : \A n \in 1..4, c \in 1..4 : \A t \in {1, 3, 4} :
  LET v == IF hard THEN Hard[n] ELSE Full[n]
      lt == [k |-> "lit", lk |-> "flt", nb |-> FALSE, w |-> "fp64", num |-> v, mw |-> 64]
      p == [ver |-> <<>>, tbl |-> [urns |-> <<>>, exts |-> <<>>], roots |-> <<[rk |-> "rel", rel |-> Mk("proj", [m |-> "dir"], <<Mk("read", [m |-> "dir"], <<>>, [tn |-> <<[id |-> "t"]>>, cols |-> <<>>])>>, [es |-> <<lt>>])]>>]
      st == <<[a |-> Conv(Choose(Forms[c], Sub(n, c)), Choose(Forms[t], Sub(n, t + 9)), FALSE, FALSE), ok |-> TRUE, out |-> Forms[t], slt |-> FALSE]>>
      case == [c |-> "cli", seed |-> n, ast |-> <<p>>, first |-> Forms[c], input |-> IF c = 1 THEN Txt(p, "req") ELSE <<>>, steps |-> st, text |-> Txt(p, "req"), ltext |-> Txt(p, "all"), bin |-> FALSE] IN
  PrintT(ToJson(IF hard /\ Forms[c] = "json" THEN case @@ [kf |-> "json-float"] ELSE case))
\* how much there is to read: around the sizes at which buffers and pipes are filled
RECURSIVE LongName(_)
LongName(m) == IF m = 0 THEN "" ELSE IF m = 1 THEN "q" ELSE LET h == LongName(m \div 2) IN h \o h \o (IF m % 2 = 1 THEN "z" ELSE "")
Sizes == {1, 100, 1000, 4000, 4096, 8000, 8150, 8191, 8192, 8193, 16384, 32768, 65400, 65500, 65535, 65536, 65537, 70000, 131072, 200000, 1048576}
BigCase == seed >= 0 /\ \A m \in Sizes : \A c \in 1..4 :
  LET nm == [id |-> LongName(m)]
      T(i) == Mk("read", [m |-> "dir"], <<>>, [tn |-> <<nm, [id |-> "t" \o ToString(i)]>>, cols |-> <<[n |-> [id |-> "c"], t |-> [k |-> "s", n |-> "i64", nu |-> "R"]]>>])
      p == [ver |-> <<>>, tbl |-> [urns |-> <<>>, exts |-> <<>>], roots |-> [i \in 1..2 |-> [rk |-> "rel", rel |-> T(i)]]]
      St(f, t) == [a |-> Conv(Choose(Forms[f], Sub(m, f)), Choose(Forms[t], Sub(m, t + 9)), FALSE, FALSE), ok |-> TRUE, out |-> Forms[t], slt |-> FALSE]
      st == [i \in 1..4 |-> St(((c + i - 2) % 4) + 1, ((c + i - 1) % 4) + 1)] IN
  PrintT(ToJson([c |-> "cli", seed |-> m, ast |-> <<p>>, first |-> Forms[c], input |-> IF c = 1 THEN Txt(p, "req") ELSE <<>>, steps |-> st, text |-> Txt(p, "req"), ltext |-> Txt(p, "all"), bin |-> TRUE]))
CheckC == CASE Mode = "flt" -> FltCase [] Mode = "big" -> BigCase [] Mode = "chain" -> ChainCase [] Mode = "cfg" -> CfgCase [] Mode = "std" -> StdCase [] OTHER -> BadCase
=============================================================================
