-------------------------------- MODULE CliFs --------------------------------
(***************************************************************************)
(* C16, the files.  The state is a directory: what each file holds (a plan *)
(* in some form, junk, or nothing at all).  A step is one invocation, from *)
(* any file to any file (itself included), in any forms.  What cannot be   *)
(* converted leaves every file as it was; what can be converted changes    *)
(* the output file alone.  Every edge of the graph is run by the binary.   *)
(***************************************************************************)
EXTENDS EmitK
CONSTANTS Names, Depth
VARIABLES dir, n

Forms == {"text", "json", "yaml", "pb"}
FormOf == ("a.substrait" :> "text") @@ ("b.json" :> "json") @@ ("c.yml" :> "yaml") @@ ("d.pb" :> "pb") @@ ("-" :> "") @@ ("no/e.pb" :> "pb") @@ ("f" :> "")
Plan1 == PlanOf(Un("filter", 0, Dir, Read(2, Dir)))
Plan2 == PlanOf(Un("proj", 1, [m |-> "map", is |-> <<0, 2, 1>>], Virt(2)))
Plan3 == PlanOf(Mk("filter", Dir, <<Read(1, Dir)>>, [c |-> <<>>]))          \* a part is missing: it can be shown, but not read back
Plans3 == <<Plan1, Plan2, Plan3>>
Absent == [k |-> "absent"]
Junk == [k |-> "junk"]
Has(p, f) == [k |-> "plan", p |-> p, f |-> f]
Stdin == Has(1, "text")
\* what reading content c as form f gives: a plan, none, or (where forms overlap) one cannot say
Got(c, f) == CASE c.k # "plan" \/ f = "" -> 0
               [] c.f = f -> IF f = "text" /\ c.p = 3 THEN 0 ELSE c.p
               [] c.f = "text" \/ f = "text" \/ (f = "json" /\ c.f = "yaml") -> 0
               [] OTHER -> -1
At(nm) == IF nm = "-" THEN Stdin ELSE IF nm \in DOMAIN dir THEN dir[nm] ELSE Absent
Selected(opt, nm) == IF opt # <<>> THEN opt[1] ELSE FormOf[nm]
Opts == {<<>>} \cup {<<f>> : f \in Forms}
Step(a) ==
  LET fi == IF a.cmd = "validate" THEN "text" ELSE Selected(a.f, a.i)
      fo == IF a.cmd = "validate" THEN "text" ELSE Selected(a.t, a.o)
      g == Got(At(a.i), fi)
      ok == g > 0 /\ fo # "" /\ a.o # "no/e.pb"
  IN [known |-> g >= 0 \/ fo = "" \/ a.o = "no/e.pb", ok |-> ok, out |-> IF ok THEN Has(g, fo) ELSE Absent,
      dir |-> IF ok /\ a.o # "-" THEN [dir EXCEPT ![a.o] = Has(g, fo)] ELSE dir]
Acts == [cmd : {"convert"}, i : DOMAIN dir \cup {"-"}, o : DOMAIN dir \cup {"-", "no/e.pb"}, f : Opts, t : Opts, slt : {FALSE}, vb : {FALSE}]
        \cup [cmd : {"validate"}, i : DOMAIN dir \cup {"-"}, o : DOMAIN dir \cup {"-", "no/e.pb"}, f : {<<>>}, t : {<<>>}, slt : {FALSE}, vb : {FALSE}]
Init == /\ n = 0
        /\ dir \in {("a.substrait" :> Has(1, "text")) @@ [x \in Names |-> y] : y \in {Absent, Junk, Has(2, "pb"), Has(3, "pb")}}
Next == n < Depth /\ n' = n + 1 /\ \E a \in Acts : LET r == Step(a) IN r.known /\ dir' = r.dir
\* invariants of the model: a plan is in a file only if it was somewhere before; failure changes nothing
Known == \A x \in DOMAIN dir : dir[x].k = "plan" => dir[x].p \in 1..3
Order == <<"a.substrait", "b.json", "c.yml", "d.pb", "f">>
Listing(d) == Map(LAMBDA x : [n |-> x, c |-> d[x]], FilterQ(LAMBDA x : x \in DOMAIN d, Order))
Text(p) == Canonical(p, DefaultOpts)
Edges ==
  /\ Known
  /\ \A a \in Acts : LET r == Step(a) IN
       ~r.known \/ PrintT(ToJson([c |-> "fs", plans |-> Plans3, before |-> Listing(dir), after |-> Listing(r.dir), a |-> a, ok |-> r.ok, out |-> r.out]))
View == dir
=============================================================================
