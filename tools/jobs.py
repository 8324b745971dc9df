"""Which machines decide which property, and how deep each tier goes."""
ASSUME = [
    "the specification's Print/Mean functions state the intended text form (cross-checked: Mean(Print(p)) = p in TLC, and against the code)",
    "names, numbers and strings come from the finite pools of Gen.tla",
]


def span(tier, seed, quick, deep, base=1000):
    """a block of generator seeds: every VERIF_SEED explores a different block"""
    n = quick if tier == "quick" else deep
    lo = base + 1000003 * (seed % 2000)
    return {"Lo": lo, "Hi": lo + n}


def q(tier, quick, deep):
    return quick if tier == "quick" else deep


LENS = "{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 24, 31, 32, 33, 40, 63, 64, 65, 100, 130}"


def C01(t, s):
    own = [("PairX", {"What": '"e"', "Wide": "TRUE"}), ("NumX", {"Slots": "{}"}), ("WideX", {"Lens": q(t, LENS, LENS[:-1] + ", 200, 255, 256, 257, 300}"), "only": "rt"}), ("Plans", {**span(t, s, 15000, 400000), "only": "rt"}), ("Plans", {**span(t, s, 2000, 40000, 500000), "Depth": 7, "only": "rt"})]
    # the round trips among the behaviours of the other machines
    return own + [(m, {**c, "only": "rt,law,clean"}) for m, c in [
        ("TypesX", {"Bases": '"all"', "Depth": 1, "Mode": '"good"'}),
        ("LitX", {"Part": '"durs"', **span(t, s, 300, 3000)}),
        ("LitX", {"Part": '"frac"', **span(t, s, 300, 3000)}),
        ("LitX", {"Part": '"days"', "Lo": 0, "Hi": 300}),
        ("LitX", {"Part": '"chars"', "Lo": 0, "Hi": 700}),
        ("LitX", {"Part": '"flts"', **span(t, s, 200, 3000)}),
        ("EmitX", {"MaxW": 2, "MaxL": 3, "Top": "FALSE"}),
        ("NamesX", {"Kind": '"f"', "MaxE": 2, "Read": "FALSE"}),
        ("NamesX", {"Kind": '"t"', "MaxE": 2, "Read": "FALSE"}),
        ("Tables", {"MaxU": 2, "MaxE": 2}),
        ("VersX", {})]]


def C02(t, s):
    own = [("PairX", {"What": '"e"', "Wide": q(t, "FALSE", "TRUE")}), ("WideX", {"Lens": q(t, LENS, LENS[:-1] + ", 200, 255, 256, 257, 300}"), "only": "doc"}), ("Mutants", span(t, s, 26000, 600000)), ("Mutants", {**span(t, s, 2500, 60000, 500000), "Depth": 7})]
    # the documents among the behaviours of the other machines
    return own + [(m, {**c, "only": "doc"}) for m, c in [
        ("LitX", {"Part": '"matrix"', **span(t, s, 500, 5000)}),
        ("LitX", {"Part": '"times"', **span(t, s, 500, 5000)}),
        ("TypesX", {"Bases": '"few"', "Depth": 1, "Mode": '"bad"'}),
        ("NamesX", {"Kind": '"f"', "MaxE": 2, "Read": "TRUE"}),
        ("ArgsX", {"Hd": '"Typed"', "MaxA": 2, "Small": "FALSE"}),
        ("ArgsX", {"Hd": '"Alpha"', "MaxA": 1, "Small": "FALSE"}),
        ("TreeX", {"KindSet": '"all"', "MaxLen": 3, "MaxD": 2}),
        ("Protocol", {"Alpha": '"ext"', "Prefixes": '"ext"', "MaxLen": 3})]]


HEAD = '{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}'
NAME = '{1, 3, 4, 9, 10, 13}'


def C03(t, s):
    return [("VersX", {}), ("TextX", {"Fields": '{"prod", "git"}', "Alpha": HEAD, "MaxLen": q(t, 3, 4)}), ("Protocol", {"Alpha": '"sec"', "Prefixes": '"sec"', "MaxLen": 4}), ("NumX", {"Slots": '{"maj", "min", "pat"}'})]


def C04(t, s):
    return [("TreeX", {"KindSet": '"all"', "MaxLen": 3, "MaxD": 2}),
            ("TreeX", {"KindSet": '"mix"', "MaxLen": q(t, 4, 5), "MaxD": 3}),
            ("TreeX", {"KindSet": '"shape"', "MaxLen": q(t, 5, 6), "MaxD": 4}),
            ("ChunkX", {"Set": '"all"', "MaxLen": 3, "MaxD": q(t, 1, 2), "Crlf": "FALSE"}),
            ("ChunkX", {"Set": '"few"', "MaxLen": q(t, 4, 5), "MaxD": q(t, 2, 1), "Crlf": "FALSE"}),
            ("TreeR", {**span(t, s, 20000, 400000), "Depth": 7}),
            ("TreeR", {**span(t, s, 600, 8000, 500000), "Depth": 20})]


def C05(t, s):
    return [("EmitX", {"MaxW": 2, "MaxL": q(t, 2, 3), "Top": "TRUE"}),
            ("EmitX", {"MaxW": q(t, 2, 3), "MaxL": q(t, 3, 3), "Top": "FALSE"}),
            ("EmitW", {"Mode": '"agg"', "MaxG": q(t, 2, 3)}),
            ("EmitW", {"Mode": '"wide"', "Ws": q(t, "{9, 10, 11, 64, 65}", "{9, 10, 11, 99, 100, 63, 64, 65, 127, 128, 129}")}),
            ("EmitW", {"Mode": '"wide"', "Ws": q(t, "{257}", "{255, 256, 257, 300}")}),
            ("EmitR", {**span(t, s, 35000, 500000), "Depth": 5})]


def C06(t, s):
    return [("Protocol", {"Alpha": '"ext"', "Prefixes": '"ext"', "MaxLen": q(t, 5, 6)}),
            ("Tables", {"MaxU": 2, "MaxE": q(t, 3, 4)}),
            ("TextX", {"Fields": '{"urn", "f", "t", "v"}', "Alpha": HEAD, "MaxLen": q(t, 3, 4)}),
            ("TextX", {"Fields": '{"f", "t", "v"}', "Alpha": NAME, "MaxLen": q(t, 5, 7)}),
            ("Catalog", {"MaxLen": 2}),
            ("Catalog", {"MaxLen": q(t, 3, 4), "UrnA": "{1}", "NameSet": '{"f", "f:i"}', "Anchors": q(t, "{1, 2}", "{1}")}),
            ("NumX", {"Slots": '{"urn", "urn2", "fn", "fn2", "ty", "ty2", "var"}'})]


def C07(t, s):
    return [("NamesX", {"Kind": '"f"', "MaxE": 2, "Read": "TRUE", "Wide": q(t, "FALSE", "TRUE")}),
            ("NamesX", {"Kind": '"f"', "MaxE": 2, "Read": "FALSE", "Wide": "TRUE"}),
            ("NamesX", {"Kind": '"f"', "MaxE": q(t, 2, 3), "Read": "FALSE"}),
            ("NamesX", {"Kind": '"t"', "MaxE": 3, "Read": "TRUE"}),
            ("NamesX", {"Kind": '"t"', "MaxE": 2, "Read": "TRUE", "Wide": "TRUE"}),
            ("NamesX", {"Kind": '"t"', "MaxE": 3, "Read": "FALSE"}),
            ("Catalog", {"MaxLen": q(t, 3, 4), "Kd": '{"f"}', "UrnA": "{1}", "UrnRefs": "{1}", "Anchors": "{1, 2, 3}"}),
            ("CompX", {"MaxN": 4, "MaxP": q(t, 3, 4)})]


def C08(t, s):
    cls = ["type", "lit", "expr", "anchor", "enum", "ext", "emit", "schema", "input", "rel", "field", "index", "root"]
    a = [("Degrade", {**span(t, s, 13000, 200000, 300000 * k), "Rate": r, "Depth": 4, "Only": '"all"'}) for k, r in enumerate((3, 10, 30))]
    a += [("Lossy", {})]
    # plans in deprecated spellings, which lose nothing
    a += [("Plans", {**span(t, s, 8000, 100000), "only": "fmt"})]
    # the faulty plans among the behaviours of the other machines
    a += [(m, {**c, "only": "fmt"}) for m, c in [
        ("TypesX", {"Bases": '"all"', "Depth": 1, "Mode": '"good"'}), ("PairX", {"What": '"e"', "Wide": "FALSE"}), ("PairX", {"What": '"t"', "Wide": "FALSE"}),
        ("EmitX", {"MaxW": 2, "MaxL": 2, "Top": "FALSE"}),
        ("NamesX", {"Kind": '"f"', "MaxE": 2, "Read": "FALSE"}),
        ("TextX", {"Fields": '{"urn", "f", "t", "v", "prod", "git"}', "Alpha": HEAD, "MaxLen": 2}),
        ("Tables", {"MaxU": 2, "MaxE": 2}),
        ("LitX", {"Part": '"outs"', "Lo": 0, "Hi": 15})]]
    if t != "quick":
        a += [("Degrade", {**span(t, s, 0, 20000, 700000 + 1000 * k), "Rate": 8, "Depth": 5, "Only": '"%s"' % c}) for k, c in enumerate(cls)]
    return a


def C09(t, s):
    return [("Junk", {**span(t, s, 9000, 300000), "Mode": '"mut"'}),
            ("Junk", {**span(t, s, 12000, 300000), "Mode": '"raw"'}),
            ("Junk", {**span(t, s, 30000, 900000), "Mode": '"soup"'}),
            ("Deep", {})] + [(m, {**c, "only": "doc"}) for m, c in [
                ("TreeX", {"KindSet": '"all"', "MaxLen": 3, "MaxD": 2}),
                ("TypesX", {"Bases": '"few"', "Depth": 1, "Mode": '"bad"'}),
                ("Protocol", {"Alpha": '"sec"', "Prefixes": '"sec"', "MaxLen": 3}),
                ("Protocol", {"Alpha": '"sec"', "Prefixes": '"sec"', "MaxLen": 2, "Lead": 300}),
                ("Protocol", {"Alpha": '"ext"', "Prefixes": '"ext"', "MaxLen": 3, "Lead": 300}),
                ("Protocol", {"Alpha": '"ext"', "Prefixes": '"ext"', "MaxLen": 4}),
                ("TreeR", {**span(t, s, 2000, 40000), "Depth": 7})]]


def C10(t, s):
    L = lambda part, lo, hi: ("LitX", {"Part": '"%s"' % part, "Lo": lo, "Hi": hi})
    R = lambda part, a, b: ("LitX", {"Part": '"%s"' % part, **span(t, s, a, b)})
    return [L("days", 0, q(t, 2435, 61000)), L("secs", 0, 1439), L("ints", 0, 425), L("outs", 0, 15), L("chars", 0, q(t, 6000, 34815)),
            R("frac", 1500, 60000), R("matrix", 1500, 60000), R("times", 1500, 60000), R("durs", 1500, 60000), R("flts", 1500, 60000)]


def C11(t, s):
    return [("TypesX", {"Bases": '"all"', "Depth": 1, "Mode": '"good"'}),
            ("TypesX", {"Bases": '"few"', "Depth": 2, "Mode": '"good"'}),
            ("TypesX", {"Bases": '"few"', "Depth": 2, "Mode": '"bad"'}),
            ("TypesR", {**span(t, s, 6000, 200000), "Depth": 4}),
            ("PairX", {"What": '"t"', "Wide": "FALSE"}), ("NumX", {"Slots": '{"prec", "len", "dec", "upar", "unpar", "ty", "ty2", "var"}'})]


def C12(t, s):
    return [("Options", {**span(t, s, 10000, 300000), "Depth": 5, "Mode": '"rand"'}),
            ("Options", {**span(t, s, 40, 400, 500000), "Mode": '"cube"'}),
            ("OptW", {"MaxRows": q(t, 11, 40)})]


def C13(t, s):
    return [("ArgApi", {"Pool": '"full"', "MaxB": q(t, 1, 2), "MaxO": 1}),
            ("ArgApi", {"Pool": '"pair"', "MaxB": 2, "MaxO": q(t, 1, 2)}),
            ("ArgApi", {"Pool": '"one"', "MaxB": q(t, 2, 3), "MaxO": 2}),
            ("ColX", {"Mode": '"cols"', "MaxLen": q(t, 3, 4)}),
            ("ColX", {"Mode": '"schema"', "MaxLen": q(t, 3, 4)}),
            ("RegX", {"MaxN": 2, "MaxU": 2, "MaxLen": q(t, 3, 4)}),
            ("RegX", {"MaxN": 3, "MaxU": 3, "MaxLen": 3}),
            ("ArgsX", {"Hd": '"Typed"', "MaxA": 2, "Small": "FALSE"}),
            ("ArgsX", {"Hd": '"Typed"', "MaxA": 3, "Small": "TRUE"}),
            ("ArgsX", {"Hd": '"Alpha"', "MaxA": q(t, 1, 2), "Small": "FALSE"}),
            ("ArgsX", {"Hd": '"Alpha"', "MaxA": 3, "Small": "TRUE"}),
            ("AnyX", {"MaxF": q(t, 2, 3), "MaxHops": q(t, 2, 3)})]


def C14(t, s):
    return [("ChunkX", {"Set": '"some"', "MaxLen": 3, "MaxD": 2, "Crlf": "TRUE"}),
            ("Layout", span(t, s, 30000, 400000))]


def C15(t, s):
    J = lambda m, a, b, **k: ("Sess", {**span(t, s, a, b), "Mode": '"%s"' % m, **k})
    a = [J("nest", 10, 60, Calls=3), J("nest", 24, 60, Calls=2), J("par", 24, 200, NT=2, NS=4), J("par", 10, 120, NT=3, NS=2), J("comp", 3000, 100000)]
    return a if t == "quick" else a + [J("nest", 0, 6, Calls=4), J("par", 0, 8, NT=3, NS=3)]


def C16(t, s):
    return [("CliX", {**span(t, s, 6000, 200000), "Mode": '"chain"'}), ("CliX", {**span(t, s, 3000, 60000), "Mode": '"std"'}), ("CliX", {"Mode": '"flt"'}), ("CliX", {"Mode": '"big"'}),
            ("Deep", {"Depths": "{3, 10, 24, 60}", "Limit": 24, "Forms": '{"json", "yaml", "protobuf"}'}),
            ("CliFs", {"Names": q(t, '{"b.json"}', '{"b.json", "c.yml", "f"}'), "Depth": 1}), ("CliFs", {"Names": '{"c.yml", "f"}', "Depth": 0}),
            ("CliX", {"Mode": '"cfg"'}), ("CliX", {"Mode": '"bad"'})]


JOBS = {k: v for k, v in globals().items() if k[0] == "C" and k[1:].isdigit()}
