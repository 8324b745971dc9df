//! Registration histories (C13): a handler is a name and a type URL, and marks what it produced.
use crate::ast::{i, q, s};
use crate::cases::Report;
use serde_json::{json, Value};
use substrait::proto;
use substrait_explain::extensions::{
    Any, AnyConvertible, AnyRef, ArgsAccess, Explainable, ExtensionArgs, ExtensionContext, ExtensionError, ExtensionRegistry, ExtensionType,
    EnumValue, Expr, ExtensionColumn, ExtensionProtoConvert, ExtensionValue, ExtensionValueKind, RegistrationError, TupleValue,
};
use substrait_explain::{format_with_registry, parse_with_registry, OutputOptions};

const NAMES: [&str; 3] = ["One", "Two", "Three"];
const URLS: [&str; 3] = ["type.test/a", "type.test/b", "type.test/c"];
const TYPES: [ExtensionType; 4] = [ExtensionType::Relation, ExtensionType::ExtensionTable, ExtensionType::Enhancement, ExtensionType::Optimization];

/// Handler N with type URL U.  Its payload is the number written, followed by who wrote it.
struct H<const N: usize, const U: usize>(i64, u8);
impl<const N: usize, const U: usize> AnyConvertible for H<N, U> {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(Self::type_url(), vec![self.0 as u8, (10 * N + U) as u8]))
    }
    fn from_any<'a>(any: AnyRef<'a>) -> Result<Self, ExtensionError> {
        match any.value {
            [a, b] => Ok(H(*a as i64, *b)),
            _ => Err(ExtensionError::InvalidArgument("payload".into())),
        }
    }
    fn type_url() -> String {
        URLS[U].into()
    }
}
impl<const N: usize, const U: usize> Explainable for H<N, U> {
    fn name() -> &'static str {
        NAMES[N]
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        Ok(H(args.expect_named::<i64>("v")?, 0))
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        let mut a = ExtensionArgs::default();
        a.insert("v", self.0);
        a.insert("by", (10 * N + U) as i64);
        Ok(a)
    }
}
fn register(r: &mut ExtensionRegistry, ns: usize, n: usize, u: usize) -> Result<(), RegistrationError> {
    fn go<const N: usize, const U: usize>(r: &mut ExtensionRegistry, ns: usize) -> Result<(), RegistrationError> {
        match ns {
            0 => r.register_relation::<H<N, U>>(),
            1 => r.register_extension_table::<H<N, U>>(),
            2 => r.register_enhancement::<H<N, U>>(),
            _ => r.register_optimization::<H<N, U>>(),
        }
    }
    match (n, u) {
        (0, 0) => go::<0, 0>(r, ns),
        (0, 1) => go::<0, 1>(r, ns),
        (0, 2) => go::<0, 2>(r, ns),
        (1, 0) => go::<1, 0>(r, ns),
        (1, 1) => go::<1, 1>(r, ns),
        (1, 2) => go::<1, 2>(r, ns),
        (2, 0) => go::<2, 0>(r, ns),
        (2, 1) => go::<2, 1>(r, ns),
        _ => go::<2, 2>(r, ns),
    }
}

type Bind = Vec<(usize, usize, usize)>;

fn text(ns: usize, name: &str, args: &str) -> String {
    match ns {
        0 => format!("=== Plan\nExtensionLeaf:{name}[{args} => ]\n"),
        1 => format!("=== Plan\nRead:Extension[]\n  + Ext:{name}[{args}]\n"),
        2 => format!("=== Plan\nRead[t => ]\n  + Enh:{name}[{args}]\n"),
        _ => format!("=== Plan\nRead[t => ]\n  + Opt:{name}[{args}]\n"),
    }
}
fn plan(ns: usize, url: &str, value: Vec<u8>) -> proto::Plan {
    use proto::rel::RelType;
    let any = pbjson_types::Any { type_url: url.into(), value: value.into() };
    let schema = Some(proto::NamedStruct {
        names: vec![],
        r#struct: Some(proto::r#type::Struct { nullability: proto::r#type::Nullability::Required as i32, ..Default::default() }),
    });
    let common = |adv| {
        Some(proto::RelCommon {
            emit_kind: Some(proto::rel_common::EmitKind::Direct(Default::default())),
            advanced_extension: adv,
            ..Default::default()
        })
    };
    let table = || {
        proto::read_rel::ReadType::NamedTable(proto::read_rel::NamedTable { names: vec!["t".into()], advanced_extension: None })
    };
    let rel = match ns {
        0 => RelType::ExtensionLeaf(proto::ExtensionLeafRel { common: common(None), detail: Some(any) }),
        1 => RelType::Read(Box::new(proto::ReadRel {
            common: common(None),
            base_schema: schema,
            read_type: Some(proto::read_rel::ReadType::ExtensionTable(proto::read_rel::ExtensionTable { detail: Some(any) })),
            ..Default::default()
        })),
        k => RelType::Read(Box::new(proto::ReadRel {
            common: common(None),
            base_schema: schema,
            read_type: Some(table()),
            advanced_extension: Some(proto::extensions::AdvancedExtension {
                enhancement: (k == 2).then(|| any.clone()),
                optimization: if k == 3 { vec![any] } else { vec![] },
            }),
            ..Default::default()
        })),
    };
    proto::Plan {
        relations: vec![proto::PlanRel { rel_type: Some(proto::plan_rel::RelType::Rel(proto::Rel { rel_type: Some(rel) })) }],
        ..Default::default()
    }
}

/// Everything the registry answers must follow from the bindings.
fn observe(r: &ExtensionRegistry, b: &Bind, rep: &mut Report, what: &str) {
    let mut bad = |m: String, d: Value| rep.fail("registry", &format!("{what}: {m}"), d);
    let opts = OutputOptions::default();
    for ns in 0..4 {
        let mut names: Vec<&str> = b.iter().filter(|x| x.0 == ns).map(|x| NAMES[x.1]).collect();
        names.sort();
        if r.extension_names(TYPES[ns]) != names {
            bad("extension_names".into(), json!({"ns": ns, "want": names, "got": r.extension_names(TYPES[ns])}));
        }
        for n in 0..3 {
            let bound = b.iter().find(|x| x.0 == ns && x.1 == n);
            if r.has_extension(TYPES[ns], NAMES[n]) != bound.is_some() {
                bad("has_extension".into(), json!({"ns": ns, "name": NAMES[n]}));
            }
            let want = bound.map(|x| (URLS[x.2].to_string(), vec![7u8, (10 * x.1 + x.2) as u8]));
            let mut args = ExtensionArgs::default();
            args.insert("v", 7i64);
            let got = match ns {
                0 => r.parse_extension(NAMES[n], &args),
                1 => r.parse_extension_table(NAMES[n], &args),
                2 => r.parse_enhancement(NAMES[n], &args),
                _ => r.parse_optimization(NAMES[n], &args),
            };
            match (&got, &want) {
                (Ok(a), Some((u, v))) if a.type_url == *u && a.value == *v => {}
                (Err(ExtensionError::NotFound { .. }), None) => {}
                _ => bad("lookup by name".into(), json!({"ns": ns, "name": NAMES[n], "want": want, "got": format!("{got:?}")})),
            }
            let got = parse_with_registry(&text(ns, NAMES[n], "v=7"), r);
            match (&got, &want) {
                (Ok(p), Some((u, v))) if *p == plan(ns, u, v.clone()) => {}
                (Err(_), None) => {}
                _ => bad("document".into(), json!({"ns": ns, "name": NAMES[n], "want": want, "got": format!("{got:?}")})),
            }
        }
        for (u, url) in URLS.iter().enumerate() {
            let bound = b.iter().find(|x| x.0 == ns && x.2 == u);
            let val = vec![9u8, 0];
            let any = AnyRef::new(url, &val);
            let got = match ns {
                0 => r.decode(any),
                1 => r.decode_extension_table(any),
                2 => r.decode_enhancement(any),
                _ => r.decode_optimization(any),
            };
            let by = bound.map(|x| 10 * x.1 + x.2);
            let ok = match (&got, bound) {
                (Ok((nm, a)), Some(x)) => nm == NAMES[x.1] && i64::try_from(&a.named["by"]).ok() == by.map(|k| k as i64),
                (Err(ExtensionError::NotFound { .. }), None) => true,
                _ => false,
            };
            if !ok {
                bad("lookup by type".into(), json!({"ns": ns, "url": url, "want": format!("{bound:?}"), "got": format!("{got:?}")}));
            }
            let (t, errs) = format_with_registry(&plan(ns, url, val.clone()), &opts, r);
            let ok = match bound {
                Some(x) => t == text(ns, NAMES[x.1], &format!("v=9, by={}", by.unwrap())) && errs.is_empty(),
                None => t.matches("!{").count() == 1 && errs.len() == 1,
            };
            if !ok {
                bad("formatting".into(), json!({"ns": ns, "url": url, "want": format!("{bound:?}"), "got": t}));
            }
        }
    }
}

/// ops: the calls with their results; the bindings after each prefix follow from the results.
pub fn reg_case(c: &Value, rep: &mut Report) {
    let mut r = ExtensionRegistry::new();
    let mut b: Bind = vec![];
    let ops = q(c, "ops");
    rep.sample = json!({"ops": ops});
    for (k, o) in ops.iter().enumerate() {
        let (ns, n, u) = (i(o, "ns") as usize, i(o, "n") as usize, i(o, "u") as usize);
        let before = r.clone();
        let got = register(&mut r, ns, n, u);
        let ok = match (s(o, "res"), &got) {
            ("ok", Ok(())) => true,
            ("dup", Err(RegistrationError::DuplicateName { ext_type, name })) => *ext_type == TYPES[ns] && name == NAMES[n],
            ("conf", Err(RegistrationError::ConflictingTypeUrl { type_url, ext_type, existing_name })) => {
                *ext_type == TYPES[ns] && type_url == URLS[u] && existing_name == NAMES[i(o, "old") as usize]
            }
            _ => false,
        };
        if !ok {
            rep.fail("register", "result of a registration", json!({"op": o, "got": format!("{got:?}")}));
            return;
        }
        if k + 1 == ops.len() {
            observe(&before, &b, rep, "a copy taken before the last call");
        }
        if got.is_ok() {
            b.push((ns, n, u));
        } else {
            rep.count("refused");
        }
    }
    let want: Bind = q(c, "bind").iter().map(|x| (i(x, "ns") as usize, i(x, "n") as usize, i(x, "u") as usize)).collect();
    observe(&r, &want, rep, "after the history");
}

/// Columns as a schema, and a schema as columns (ColX.tla).
pub fn conv_case(c: &Value, rep: &mut Report) {
    use crate::ast::{b, expr, has, name, ty};
    let col = |v: &Value| {
        if has(v, "e") { ExtensionColumn::Expr(expr(&v["e"]).into()) } else { ExtensionColumn::Named { name: name(&v["n"]), r#type: ty(&v["t"]) } }
    };
    let schema = |v: &Value, st: bool| proto::NamedStruct {
        names: q(v, "names").iter().map(name).collect(),
        r#struct: st.then(|| proto::r#type::Struct {
            types: q(v, "types").iter().map(ty).collect(),
            type_variation_reference: 0,
            nullability: proto::r#type::Nullability::Required as i32,
        }),
    };
    let ok = q(c, "ok").first();
    rep.sample = json!({"columns": c["cols"], "names": c["names"], "types": c["types"], "accept": ok.is_some()});
    rep.count(if ok.is_some() { "converted" } else { "refused" });
    let mut judge = |same: Option<bool>, got: String| match (same, ok) {
        (Some(true), Some(_)) | (None, None) => {}
        (Some(_), None) => rep.fail("registry", "conversion accepted what it should refuse", json!({"got": got})),
        (None, Some(_)) => rep.fail("registry", "conversion refused what it should accept", json!({"got": got})),
        _ => rep.fail("registry", "conversion changed the columns", json!({"got": got})),
    };
    if has(c, "cols") {
        let cols: Vec<ExtensionColumn> = q(c, "cols").iter().map(col).collect();
        let r: Result<proto::NamedStruct, ExtensionError> = cols[..].convert();
        judge(r.as_ref().ok().map(|n| ok.is_some_and(|k| *n == schema(k, true))), format!("{r:?}"));
    } else {
        let n = schema(c, b(c, "has"));
        let r: Result<Vec<ExtensionColumn>, ExtensionError> = n.convert();
        let same = |k: &Value, g: &[ExtensionColumn]| {
            let want = k.as_array().expect("columns");
            want.len() == g.len()
                && want.iter().zip(g).all(|(w, g)| matches!(g, ExtensionColumn::Named { name: n, r#type: t } if *n == name(&w["n"]) && *t == ty(&w["t"])))
        };
        judge(r.as_ref().ok().map(|g| ok.is_some_and(|k| same(k, g))), format!("{r:?}"));
    }
}

thread_local! {
    static SCRIPT: std::cell::RefCell<(Vec<Value>, bool, Vec<Value>)> = const { std::cell::RefCell::new((Vec::new(), false, Vec::new())) };
}
/// A handler that makes the requests it is given and notes the answers (ArgApi.tla).
struct Scripted;
impl AnyConvertible for Scripted {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(Self::type_url(), vec![]))
    }
    fn from_any<'a>(_: AnyRef<'a>) -> Result<Self, ExtensionError> {
        Ok(Scripted)
    }
    fn type_url() -> String {
        "type.test/scripted".into()
    }
}
/// A field reference, as a handler of one's own would ask for it.
struct Direct(i32);
impl TryFrom<&ExtensionValue> for Direct {
    type Error = ExtensionError;
    fn try_from(v: &ExtensionValue) -> Result<Self, ExtensionError> {
        let expected = ExtensionValueKind::Reference;
        match v {
            ExtensionValue::Expr(e) => e.as_direct_reference().map(Direct).ok_or(ExtensionError::InvalidArgumentType { expected, actual: v.kind() }),
            ExtensionValue::Error(e) => Err(ExtensionError::ArgumentConversion { expected, source: Box::new(e.clone()) }),
            v => Err(ExtensionError::InvalidArgumentType { expected, actual: v.kind() }),
        }
    }
}
fn refusal(e: &ExtensionError) -> Value {
    match e {
        ExtensionError::MissingArgument { name } => json!({"miss": 1, "n": name}),
        ExtensionError::NamedArgumentConversion { name, source } => match &**source {
            ExtensionError::InvalidArgumentType { expected, actual } => json!({"exp": expected.to_string(), "got": actual.to_string(), "n": name}),
            ExtensionError::ArgumentConversion { expected, .. } => json!({"exp": expected.to_string(), "got": "error", "n": name}),
            e => json!({"other": format!("{e:?}")}),
        },
        e => json!({"other": format!("{e:?}")}),
    }
}
impl Explainable for Scripted {
    fn name() -> &'static str {
        "Scripted"
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        use crate::ast::name;
        use crate::ext::val_to_json as show;
        let (ops, stop) = SCRIPT.with_borrow(|s| (s.0.clone(), s.1));
        macro_rules! typed {
            ($o:expr, $t:ty, $wrap:expr) => {{
                let n = name(&$o["n"]);
                match s($o, "op") {
                    "get" => args.get_named::<$t>(&n).map(|v| v.map(|v| show(&$wrap(v)))),
                    "expect" => args.expect_named::<$t>(&n).map(|v| Some(show(&$wrap(v)))),
                    _ => args.get_named_tuple::<$t>(&n).map(|v| v.map(|v| show(&ExtensionValue::Tuple(v.into_iter().map($wrap).collect())))),
                }
            }};
        }
        for o in &ops {
            let got: Result<Option<Value>, ExtensionError> = match s(o, "op") {
                "pos" => Ok(Some(show(&ExtensionValue::Tuple(args.positional().to_vec().into())))),
                "raw" => Ok(args.get_named_arg(&name(&o["n"])).map(show)),
                _ => match s(o, "t") {
                    "i64" => typed!(o, i64, ExtensionValue::from),
                    "f64" => typed!(o, f64, ExtensionValue::from),
                    "bool" => typed!(o, bool, ExtensionValue::from),
                    "str" => typed!(o, &str, ExtensionValue::from),
                    "string" => typed!(o, String, ExtensionValue::from),
                    "enum" => typed!(o, EnumValue, |e: EnumValue| ExtensionValue::Enum(e.0)),
                    "tuple" => typed!(o, &TupleValue, |t: &TupleValue| ExtensionValue::Tuple(t.clone())),
                    "ref" => typed!(o, Direct, |d: Direct| ExtensionValue::from(Expr::field(d.0))),
                    _ => typed!(o, Expr, ExtensionValue::from),
                },
            };
            SCRIPT.with_borrow_mut(|s| {
                s.2.push(match &got {
                    Ok(Some(v)) => json!({"ok": v}),
                    Ok(None) => json!({"none": 1}),
                    Err(e) => refusal(e),
                })
            });
            if let (Err(e), true) = (got, stop) {
                return Err(e);
            }
        }
        Ok(Scripted)
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        Ok(ExtensionArgs::default())
    }
}

/// Calls of the argument interface (ArgApi.tla).
pub fn args_case(c: &Value, rep: &mut Report) {
    use crate::ast::{b, has, name, xval};
    use crate::ext::{json_to_val, val_to_json};
    let val = |v: &Value| json_to_val(&xval(v)).expect("value");
    let out = s(c, "out");
    rep.sample = json!({"build": c["build"], "requests": c["ops"], "outcome": out});
    rep.count(&format!("arguments_{out}"));
    let mut a = ExtensionArgs::default();
    for st in q(c, "build") {
        if s(st, "op") == "push" {
            a.push(val(&st["v"]));
        } else {
            let old = a.insert(name(&st["n"]), val(&st["v"])).as_ref().map(val_to_json);
            if old != q(st, "old").first().map(xval) {
                rep.fail("registry", "inserting an argument gave back something else", json!({"got": old, "want": st["old"]}));
            }
        }
    }
    let held = json!([a.positional.iter().map(val_to_json).collect::<Vec<_>>(), a.named.iter().map(|(n, v)| json!([n, val_to_json(v)])).collect::<Vec<_>>()]);
    let want = json!([q(c, "pos").iter().map(xval).collect::<Vec<_>>(), q(c, "named").iter().map(|p| json!([name(&p["n"]), xval(&p["v"])])).collect::<Vec<_>>()]);
    if held != want {
        rep.fail("registry", "the arguments held are not the arguments given", json!({"got": held, "want": want}));
    }
    SCRIPT.set((q(c, "ops").to_vec(), b(c, "stop"), Vec::new()));
    let r = a.parse::<Scripted>();
    let got = SCRIPT.with_borrow(|s| s.2.clone());
    let want: Vec<Value> = q(c, "log")
        .iter()
        .map(|l| {
            let mut l = l.clone();
            if has(&l, "ok") {
                l["ok"] = xval(&l["ok"]);
            }
            if has(&l, "n") {
                l["n"] = json!(name(&l["n"]));
            }
            l
        })
        .collect();
    if got != want {
        rep.fail("registry", "a request for an argument was answered wrongly", json!({"got": got, "want": want}));
    }
    let ok = match (&r, out) {
        (Ok(_), "ok") => true,
        (Err(e), "op") => want.last() == Some(&refusal(e)),
        (Err(ExtensionError::InvalidArgument(_)), "pos") => true,
        (Err(ExtensionError::InvalidArgument(m)), "named") => q(c, "left").iter().all(|n| m.contains(&name(n))),
        _ => false,
    };
    if !ok {
        rep.fail("registry", "decoding ended otherwise", json!({"got": format!("{:?}", r.err()), "want": out}));
    }
}

macro_rules! message {
    ($t:ident, $name:literal) => {
        #[derive(Clone, PartialEq, prost::Message)]
        pub struct $t {
            #[prost(int64, tag = "1")]
            pub a: i64,
            #[prost(string, tag = "2")]
            pub b: String,
        }
        impl prost::Name for $t {
            const NAME: &'static str = $name;
            const PACKAGE: &'static str = "sx.any";
        }
        impl Explainable for $t {
            fn name() -> &'static str {
                $name
            }
            fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
                Ok($t { a: args.expect_named("a")?, b: args.expect_named("b")? })
            }
            fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
                let mut args = ExtensionArgs::default();
                args.insert("a", self.a);
                args.insert("b", self.b.clone());
                Ok(args)
            }
        }
    };
}
message!(Stamp, "Stamp");
message!(Span, "Span");

/// An envelope, read as each of three messages and through a registry (AnyX.tla).
pub fn any_case(c: &Value, rep: &mut Report) {
    use prost_types::Timestamp as Instant;
    let bytes = |v: &Value| v.as_array().expect("bytes").iter().map(|x| x.as_u64().expect("byte") as u8).collect::<Vec<u8>>();
    let host = "type.googleapis.com/google.protobuf.Timestamp";
    let url = match s(c, "url") {
        "Stamp" => "/sx.any.Stamp",
        "Span" => "/sx.any.Span",
        "Instant" => host,
        "StampBare" => "sx.any.Stamp",
        "StampHost" => "type.googleapis.com/sx.any.Stamp",
        _ => "",
    };
    let wire = bytes(&c["wire"]);
    rep.sample = json!({"url": url, "wire": wire, "hops": c["hops"]});
    rep.count(&format!("envelope_{}", s(c, "url")));
    let mut any = Any::new(url.to_string(), wire.clone());
    for h in q(c, "hops") {
        any = match h.as_str().expect("hop") {
            "prost" => Any::from(prost_types::Any::from(any)),
            "pbjson" => Any::from(pbjson_types::Any::from(any)),
            "ref" => {
                let r = any.as_ref();
                Any::new(r.type_url.to_string(), r.value.to_vec())
            }
            "refprost" => {
                let p = prost_types::Any::from(any);
                let r = AnyRef::from(&p);
                Any::new(r.type_url.to_string(), r.value.to_vec())
            }
            _ => {
                let p = pbjson_types::Any::from(any);
                let r = AnyRef::from(&p);
                Any::new(r.type_url.to_string(), r.value.to_vec())
            }
        };
    }
    if any.type_url != url || any.value != wire {
        rep.fail("registry", "an envelope changed on the way", json!({"got": format!("{any:?}")}));
    }
    let one = |rep: &mut Report, m: &str, got: Result<(i64, i64, Any), ExtensionError>, how: &str| {
        let w = &c["reads"][m];
        let ok = match (&got, s(w, "r")) {
            (Ok((a, b, e)), "ok") => {
                json!(a) == w["a"] && json!(b) == w["b"] && e.value == bytes(&w["enc"]) && e.type_url == url
            }
            (Err(ExtensionError::TypeUrlMismatch { actual, .. }), "url") => actual == url,
            (Err(ExtensionError::DecodeFailed(_)), "bytes") => true,
            _ => false,
        };
        if !ok {
            rep.fail("registry", &format!("an envelope read as {m} ({how}) gave something else"), json!({"want": w, "got": format!("{got:?}")}));
        }
    };
    let len = |b: &String| if b.bytes().all(|x| x == b'h') { b.len() as i64 } else { -1 };
    one(rep, "Stamp", any.decode::<Stamp>().and_then(|m| Ok((m.a, len(&m.b), Any::encode(&m)?))), "decode");
    one(rep, "Stamp", Stamp::from_any(any.as_ref()).and_then(|m| Ok((m.a, len(&m.b), m.to_any()?))), "from_any");
    one(rep, "Span", any.as_ref().decode::<Span>().and_then(|m| Ok((m.a, len(&m.b), Any::encode(&m)?))), "decode");
    one(rep, "Span", Span::from_any(AnyRef::new(url, &wire)).and_then(|m| Ok((m.a, len(&m.b), m.to_any()?))), "from_any");
    one(rep, "Instant", any.decode::<Instant>().and_then(|m| Ok((m.seconds, m.nanos as i64, Any::encode(&m)?))), "decode");
    one(rep, "Instant", Instant::from_any(any.as_ref()).and_then(|m| Ok((m.seconds, m.nanos as i64, m.to_any()?))), "from_any");

    // a registry that knows only Stamp
    let mut r = ExtensionRegistry::new();
    r.register_relation::<Stamp>().expect("register");
    let w = &c["reads"]["Stamp"];
    let (text, errors) = substrait_explain::format_with_registry(&plan(0, &any.type_url, any.value.clone()), &OutputOptions::default(), &r);
    if s(w, "r") == "ok" {
        let want = format!("=== Plan\nExtensionLeaf:Stamp[a={}, b='{}' => ]\n", w["a"], "h".repeat(w["b"].as_u64().unwrap() as usize));
        if !errors.is_empty() || text.trim_end() != want.trim_end() {
            rep.fail("registry", "an envelope the registry knows is not printed as such", json!({"want": want, "got": text, "errors": format!("{errors:?}")}));
        }
        match substrait_explain::Parser::new().with_extension_registry(r).parse_plan(&want) {
            Ok(p) if p == plan(0, url, bytes(&w["enc"])) => (),
            other => rep.fail("registry", "the text does not read back as the message's own envelope", json!({"text": want, "got": format!("{other:?}")})),
        }
    } else if errors.is_empty() {
        rep.fail("registry", "an envelope nobody can read is printed without a word", json!({"text": text}));
    }
}
