//! Extension tables built call by call (C06, C07).
use crate::ast::{i, q, s};
use crate::cases::Report;
use serde_json::{json, Value};
use substrait::proto::extensions::simple_extension_declaration::MappingType as M;
use substrait_explain::extensions::simple::{CompoundName, ExtensionKind, MissingReference, ResolvedFunction};
use substrait_explain::extensions::{InsertError, SimpleExtensions};

fn kind(v: &Value) -> ExtensionKind {
    match s(v, "k") {
        "f" => ExtensionKind::Function,
        "t" => ExtensionKind::Type,
        _ => ExtensionKind::TypeVariation,
    }
}
fn inserted(r: Result<(), InsertError>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(InsertError::DuplicateUrnAnchor { .. } | InsertError::DuplicateAnchor { .. }) => "dup",
        Err(InsertError::DuplicateAndMissingUrn { .. }) => "dupmissing",
        Err(InsertError::MissingUrn { .. }) => "missing",
        Err(InsertError::InvalidName { .. }) => "name",
        Err(_) => "other",
    }
}
fn missing(e: MissingReference) -> Value {
    json!({"r": match e {
        MissingReference::MissingUrn(_) | MissingReference::MissingAnchor(..) | MissingReference::MissingName(..) => "missing",
        MissingReference::Mismatched(..) => "mismatch",
        MissingReference::DuplicateName(..) => "dup",
    }})
}
fn resolved(r: Result<ResolvedFunction<'_>, MissingReference>) -> Value {
    match r {
        Ok(f) => json!({"r": "ok", "a": f.anchor, "u": f.urn, "n": f.name.full(), "bu": f.base_name_unique, "nu": f.name_unique}),
        Err(e) => missing(e),
    }
}
fn same(rep: &mut Report, what: &str, got: Value, want: &Value, ops: &Value) {
    rep.count("answers");
    if got != *want {
        rep.fail("catalog", what, json!({"calls": ops, "got": got, "want": want}));
    }
}
fn norm(urns: Vec<Value>, exts: Vec<Value>) -> Value {
    let sorted = |mut v: Vec<Value>| {
        v.sort_by_key(|x| x.to_string());
        v
    };
    json!([sorted(urns), sorted(exts)])
}
/// what the table holds, as plan messages
fn dump(t: &SimpleExtensions) -> Value {
    norm(
        t.to_extension_urns().iter().map(|u| json!([u.extension_urn_anchor, u.urn])).collect(),
        t.to_extension_declarations()
            .iter()
            .map(|d| match d.mapping_type.as_ref().unwrap() {
                M::ExtensionFunction(f) => json!(["f", f.function_anchor, f.extension_urn_reference, f.name]),
                M::ExtensionType(f) => json!(["t", f.type_anchor, f.extension_urn_reference, f.name]),
                M::ExtensionTypeVariation(f) => json!(["v", f.type_variation_anchor, f.extension_urn_reference, f.name]),
            })
            .collect(),
    )
}

pub fn cat_case(c: &Value, rep: &mut Report) {
    let ops = &c["ops"];
    rep.sample = json!({"calls": ops});
    let mut t = SimpleExtensions::new();
    for o in ops.as_array().unwrap() {
        let before = t.clone();
        let got = if s(o, "op") == "urn" {
            inserted(t.add_extension_urn(s(o, "t").into(), i(o, "a") as u32))
        } else {
            inserted(t.add_extension(kind(o), i(o, "u") as u32, i(o, "a") as u32, s(o, "n").into()))
        };
        rep.count("calls");
        if got != s(o, "res") {
            rep.fail("catalog", "a declaration is answered differently", json!({"calls": ops, "call": o, "got": got}));
        }
        if matches!(s(o, "res"), "dup" | "dupmissing" | "name") && t != before {
            rep.fail("catalog", "a refused declaration changed the table", json!({"calls": ops, "call": o}));
        }
    }
    let want = norm(
        q(c, "urns").iter().map(|u| json!([u["a"], u["t"]])).collect(),
        q(c, "exts").iter().map(|x| json!([x["k"], x["a"], x["u"], x["n"]["full"]])).collect(),
    );
    same(rep, "the table holds something else", dump(&t), &want, ops);
    if t.is_empty() != (q(c, "urns").is_empty() && q(c, "exts").is_empty()) {
        rep.fail("catalog", "emptiness", json!({"calls": ops}));
    }
    // the same table read back from the plan messages, with one complaint per unknown URN
    let (back, errors) = SimpleExtensions::from_extensions(&t.to_extension_urns(), &t.to_extension_declarations());
    same(rep, "read back, the table holds something else", dump(&back), &want, ops);
    let lost = q(c, "exts").iter().filter(|x| !q(c, "urns").iter().any(|u| u["a"] == x["u"])).count();
    if errors.len() != lost || back != t {
        rep.fail("catalog", "reading the table back", json!({"calls": ops, "errors": errors.len(), "want": lost}));
    }
    let z = &c["q"];
    let u32of = |v: &Value, k: &str| i(v, k) as u32;
    for v in q(z, "urn") {
        same(rep, "find_urn", json!(t.find_urn(u32of(v, "a")).ok().into_iter().collect::<Vec<_>>()), &v["r"], ops);
    }
    for v in q(z, "anc") {
        let show = |(u, n): (u32, &CompoundName)| json!({"u": u, "n": {"full": n.full(), "base": n.base()}});
        same(rep, "find_by_anchor", json!(t.find_by_anchor(kind(v), u32of(v, "a")).ok().into_iter().map(show).collect::<Vec<_>>()), &v["r"], ops);
    }
    for v in q(z, "nam") {
        let got = match t.find_by_name(kind(v), s(v, "n")) {
            Ok(a) => json!({"r": "ok", "a": a}),
            Err(e) => missing(e),
        };
        same(rep, "find_by_name", got, &v["r"], ops);
    }
    for v in q(z, "uni") {
        let got = match t.is_name_unique(kind(v), u32of(v, "a"), s(v, "n")) {
            Ok(true) => json!("yes"),
            Ok(false) => json!("no"),
            Err(e) => missing(e)["r"].clone(),
        };
        same(rep, "is_name_unique", got, &v["r"], ops);
    }
    for v in q(z, "look") {
        same(rep, "lookup_function", resolved(t.lookup_function(u32of(v, "a"))), &v["r"], ops);
    }
    for v in q(z, "reso") {
        let a = u32of(v, "a");
        same(rep, "resolve_function", resolved(t.resolve_function(s(v, "n"), (a != 0).then_some(a))), &v["r"], ops);
    }

}

/// A stored name against a written one (CompX.tla).
pub fn comp_case(c: &Value, rep: &mut Report) {
    let text = |k: &str| q(c, k).iter().map(|x| char::from_u32(x.as_u64().expect("code point") as u32).expect("char")).collect::<String>();
    let (name, written, base) = (text("n"), text("w"), text("base"));
    rep.sample = json!({"name": name, "written": written, "matches": c["m"]});
    rep.count("compound_names");
    let n = CompoundName::new(name.as_str());
    let got = json!([n.full(), n.to_string(), n.base(), n.has_signature(), n.matches(&written)]);
    let want = json!([name, name, base, c["sig"], c["m"]]);
    if got != want {
        rep.fail("catalog", "a compound name is taken apart or matched otherwise", json!({"name": name, "written": written, "got": got, "want": want}));
    }
}
