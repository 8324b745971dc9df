#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text stays readable)."""
import json, pathlib
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=None)))
TX="src/textify/"; PA="src/parser/"
p("C01","Plan to text to plan is the identity on the supported subset",
  "For every plan built only from supported relations, expressions, literals, types and extensions, formatting it with default options reports no errors and parsing the text gives back a plan equal to the original. Formatting that parsed plan again yields byte-identical text.",
  ["inputs","programs"],"all plans over the supported subset: every relation kind, nesting, emit mapping, expression shape, literal kind, type, name, extension table and addendum, in any combination",
  "Tests round-trip about a hundred fixed plans; the space is the product of relation kinds, emit shapes, expression nesting, literal values, name characters and anchor tables, and most faults need a particular combination.",
  ["src/lib.rs",TX+"plan.rs",TX+"rels.rs",TX+"expressions.rs",TX+"types.rs",TX+"extensions.rs",TX+"addenda.rs",PA+"structural.rs",PA+"relations.rs",PA+"expressions.rs",PA+"types.rs"],
  [("format_with_options / PlanWriter",TX+"plan.rs"),("Parser::parse",PA+"structural.rs"),("Relation/Value/Arguments rendering",TX+"rels.rs")],["substrait_explain::format","substrait_explain::parse"])
p("C02","Accepted text means exactly the plan the grammar says",
  "Parsing any well-formed document yields exactly the plan its text denotes: every relation, argument, field reference, function anchor, type, literal and name in the text appears in the plan, in order, with nothing dropped, defaulted, duplicated or invented. A document that denotes no plan (unknown join type, aggregate output that is neither a grouping expression nor a call, wrong argument count or kind) is rejected, not repaired.",
  ["inputs"],"all documents derivable from the grammar, including alternative spellings the formatter never emits",
  "Parser tests check single rules on chosen strings; meaning depends on combinations of rules, optional parts and table contents.",
  [PA+"expression_grammar.pest",PA+"relations.rs",PA+"expressions.rs",PA+"types.rs",PA+"structural.rs",PA+"common.rs"],
  [("ParsePair / ScopedParsePair implementations",PA+"expressions.rs"),("RelationParsePair implementations",PA+"relations.rs")],["substrait_explain::parse"])
p("C03","Sections and version header follow the document line protocol",
  "A document is a sequence of Version, Extensions and Plan sections in that order, each optional and at most once; anything before a header, an unknown, repeated or out-of-order header, or a malformed version header or version line is rejected, and blank lines change nothing. The producer and git hash (surrounding blanks aside) and the version numbers survive formatting and parsing in both directions, and the Version section is written exactly when the plan carries version information.",
  ["inputs","histories"],"all sequences of header, body and blank lines, and all version metadata",
  "The parser is a state machine over lines; tests drive a few sequences, faults hide in particular orders of headers and bodies.",
  [PA+"structural.rs",PA+"chunks.rs",TX+"plan.rs"],
  [("Parser state machine",PA+"structural.rs"),("version parsing",PA+"structural.rs"),("version writing",TX+"plan.rs")],["substrait_explain::parse","substrait_explain::format"])
p("C04","Indentation alone determines the tree, with arities enforced",
  "The relation tree is determined by indentation: each relation's inputs are, in order, the lines one level deeper that follow it before the next line at its own level or shallower, for any depth and any number of roots. A line with no possible parent, a relation with the wrong number of inputs, and an addendum that is misplaced (no parent, after a child, on a root or an extension relation, a second enhancement, a missing or extra extension-table detail) are rejected.",
  ["inputs","histories"],"all sequences of relation and addendum lines with arbitrary indentation steps",
  "Tests cover small trees; stack handling errors appear only for particular sequences of indents and dedents.",
  [PA+"structural.rs",PA+"relations.rs"],
  [("TreeBuilder / LineNode",PA+"structural.rs"),("child count checks",PA+"relations.rs")],["substrait_explain::parse"])
p("C05","Output columns and emit mappings are preserved and consistent",
  "The columns written after => (or |> for reads) denote a relation's output: parsing yields direct output exactly when they are the identity over the relation's direct columns and an explicit mapping otherwise, and formatting a plan shows exactly the mapped columns in order. The number of columns a relation passes to its parent follows its kind (including each join type, set and aggregate), so computed columns of a projection and mapped references always point at the same input column in text and plan.",
  ["inputs"],"all relation kinds stacked to any depth with any emit mapping (identity, permutation, prefix, duplicate, empty, none)",
  "Widths compose through the tree; tests check single levels with simple mappings.",
  [PA+"relations.rs",TX+"rels.rs",TX+"mod.rs"],
  [("make_emit / output width",PA+"relations.rs"),("emitted column counts",TX+"rels.rs")],["substrait_explain::parse","substrait_explain::format"])
p("C06","Extension declarations are kept exactly and never merged",
  "Every declared URN, function, type and type variation is kept with its own anchor, name and URN reference when a plan is formatted or parsed; the same anchor may be used once per kind without confusion. Duplicate anchors, references to undeclared URNs and malformed or trailing text in a declaration are reported, never silently dropped, overwritten or attached to another declaration.",
  ["inputs","histories"],"all extension tables, in any declaration order, including conflicting ones",
  "Tests use small well-formed tables; conflicts between kinds, orders and anchors multiply.",
  ["src/extensions/simple.rs",PA+"extensions.rs",TX+"extensions.rs",TX+"plan.rs"],
  [("SimpleExtensions::add_extension/add_extension_urn","src/extensions/simple.rs"),("ExtensionParser state machine",PA+"extensions.rs")],["substrait_explain::parse","substrait_explain::format"])
p("C07","Function and type names resolve back to the same declaration",
  "In every extension table, the name the formatter writes for a function or user-defined type (base name, full signature, with or without anchor) resolves on parsing to the very same declaration, and the anchor or signature is omitted only when the rest is unambiguous. A reference that matches no declaration, several declarations, or an anchor whose declared name differs is rejected.",
  ["inputs","configurations"],"all tables with overloaded names and signatures, and all spellings of a reference",
  "Ambiguity depends on the whole table; tests check a few tables.",
  ["src/extensions/simple.rs",TX+"types.rs",TX+"expressions.rs",PA+"expressions.rs",PA+"types.rs",PA+"common.rs"],
  [("find/lookup and uniqueness tests","src/extensions/simple.rs"),("NamedAnchor",TX+"types.rs"),("resolve on parse",PA+"common.rs")],["substrait_explain::parse","substrait_explain::format"])
p("C08","Formatting never fails and never hides what it could not show",
  "Formatting any plan, however malformed or unsupported, returns text without panicking; each part that cannot be represented (missing required field, unknown enum value, undeclared anchor, out-of-range value, unsupported kind) leaves a visible error token in the text and exactly one reported error, and does not suppress the rest of the plan. Where no error is reported the text contains no error token.",
  ["inputs","fault_sequences"],"all plans obtained by damaging any parts of a plan, alone or in combination",
  "Tests damage single parts of a few plans; error collection interacts across parts.",
  [TX+"foundation.rs",TX+"rels.rs",TX+"expressions.rs",TX+"types.rs",TX+"plan.rs",TX+"addenda.rs"],
  [("ErrorAccumulator / MaybeToken",TX+"foundation.rs"),("Textify implementations",TX+"rels.rs")],["substrait_explain::format"])
p("C09","Malformed input is rejected at the right line and never panics",
  "Parsing any text terminates without panicking, and when it fails on a particular line the error names the number and text of the line that is at fault: the first line that breaks the syntax or tree structure, or the relation or addendum whose content is invalid. Earlier valid or blank lines never shift the reported number. (Text after the closing bracket of a plan line is a comment and no fault.)",
  ["inputs","fault_sequences"],"all documents with a fault injected at any line, and arbitrary text",
  "Tests check the reported line for a handful of errors.",
  [PA+"errors.rs",PA+"structural.rs",PA+"chunks.rs",PA+"relations.rs"],
  [("ParseContext",PA+"errors.rs"),("chunk line counting",PA+"chunks.rs")],["substrait_explain::parse"])
p("C10","Literal values survive text exactly",
  "Every literal value the text form can carry (integers of each width, floats, booleans, strings with any characters, dates, times, timestamps with and without zone at each precision, day intervals, typed nulls) is formatted to text that denotes exactly that value and type and parses back to it. A literal written with a value its type cannot hold (an integer or float out of range, a time finer than its precision) is rejected rather than wrapped or truncated. A stored value its type has no text for (a time of day of 24 hours or more, a date outside the calendar) is reported, never written as another value.",
  ["inputs"],"all literal kinds, values (boundaries, calendar edges, negative epochs, escapes) and nullabilities",
  "Values are unbounded; tests sample a few per kind.",
  [TX+"expressions.rs",PA+"expressions.rs","src/precision.rs",TX+"types.rs"],
  [("literal textify",TX+"expressions.rs"),("literal parsing",PA+"expressions.rs"),("precision scaling","src/precision.rs")],["substrait_explain::parse","substrait_explain::format"])
p("C11","Types keep nullability, parameters and nesting",
  "Every supported type, at any nesting depth, keeps its kind, nullability at each level, precision and parameters through text in both directions. Unspecified nullability stays distinguishable and is reported; malformed types, wrong parameter counts and out-of-range parameters are rejected.",
  ["inputs"],"all type terms over simple, precision, list, map, struct and user-defined types with every nullability, in every position a type can occur",
  "Type terms nest without bound; tests list shallow examples.",
  [TX+"types.rs",PA+"types.rs",PA+"expression_grammar.pest"],
  [("Type textify",TX+"types.rs"),("type parsing",PA+"types.rs")],["substrait_explain::parse","substrait_explain::format"])
p("C12","Output options change presentation only",
  "For every plan and every combination of output options, the text differs from the default only in the presentation the option controls (anchors shown, literal types shown, explicit output columns, indent unit, multi-line virtual tables), and parsing text produced with any options that keep names unambiguous and literal types shown where needed, with the standard indent and without the explicit-output marker, gives the same plan. Error reporting does not depend on the options.",
  ["inputs","configurations"],"all plans crossed with all option combinations",
  "Tests fix one option at a time on one plan; options interact with every node kind.",
  [TX+"foundation.rs",TX+"rels.rs",TX+"expressions.rs",TX+"types.rs",TX+"plan.rs"],
  [("OutputOptions",TX+"foundation.rs")],["substrait_explain::format_with_registry"])
p("C13","Extension registry namespaces and arguments are strict",
  "The registry keeps relations, extension tables, enhancements and optimizations in separate namespaces: registering a duplicate name or a type already bound fails and changes nothing, lookups never cross namespaces, and all earlier registrations keep working. A registered extension receives exactly the arguments and output columns written in the text and vice versa; unregistered names, unknown or repeated arguments and wrong argument kinds are rejected.",
  ["histories","inputs"],"all sequences of registrations and lookups, and all argument lists",
  "The registry is stateful; tests exercise short histories with well-behaved extensions.",
  ["src/extensions/registry.rs","src/extensions/args.rs","src/extensions/any.rs",PA+"extensions.rs",TX+"addenda.rs",TX+"extensions.rs"],
  [("ExtensionRegistry::register_*","src/extensions/registry.rs"),("ArgsAccess","src/extensions/args.rs")],["ExtensionRegistry","Parser::with_extension_registry"])
p("C14","Layout and spelling variants of a document mean the same plan",
  "Line endings, blank lines, trailing whitespace, optional spaces between tokens, padded anchors, argument order of named arguments where free, quoted versus plain names, and a virtual table written on one line or several do not change the parsed plan. Formatting any accepted document gives one canonical text, and reformatting that is stable.",
  ["inputs","configurations"],"all layout variants of all documents",
  "Each document has exponentially many layouts; tests use the canonical one.",
  [PA+"chunks.rs",PA+"expression_grammar.pest",PA+"structural.rs",PA+"relations.rs"],
  [("chunk assembly",PA+"chunks.rs"),("grammar whitespace rules",PA+"expression_grammar.pest")],["substrait_explain::parse","substrait_explain::format"])
p("C15","Results do not depend on earlier calls or concurrent use",
  "Parsing or formatting a document gives the same result whatever was parsed or formatted before, including after failures, and whether or not a registry is shared with other threads; parsing never changes the registry and formatting never changes the plan. Roots, relations and sections within one document do not influence each other beyond the shared extension table.",
  ["histories","schedules"],"all sequences and interleavings of calls over shared registries, and all compositions of independent roots into one document",
  "Tests call the API once per document.",
  ["src/lib.rs",PA+"structural.rs",TX+"plan.rs",TX+"foundation.rs","src/extensions/registry.rs"],
  [("Parser owned state",PA+"structural.rs"),("ErrorQueue per call",TX+"foundation.rs")],["substrait_explain::parse","substrait_explain::format"])
p("C16","Command-line conversions preserve the plan across formats",
  "Converting a plan between text, JSON, YAML and protobuf in any chain of steps preserves the plan, and equals what the library calls produce; validate accepts exactly what parses and formats cleanly. The format is taken from the explicit option first and the file extension otherwise, text output with formatting problems is still written but reported, and bad input or an unknown format is an error that produces no output and leaves every file as it was; converting a file into itself gives what converting it elsewhere gives. (JSON fields the schema does not know are ignored.)",
  ["inputs","histories","configurations"],"all plans, all conversion chains, all option and file-name combinations",
  "Tests run a few conversions on one plan.",
  ["src/cli.rs","src/json.rs","src/main.rs"],
  [("Cli::run_with_io","src/cli.rs"),("JSON Any handling","src/json.rs"),("Format::from_extension","src/cli.rs")],["substrait-explain CLI"])
out="\n".join(json.dumps(x,ensure_ascii=False) for x in P)+"\n"
pathlib.Path("/verif/properties.jsonl").write_text(out)
import jsonschema
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,S)
print(len(P))
