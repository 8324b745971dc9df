//! Builds real Substrait protobuf plans from the abstract plans of the specification.
//! The mapping is one to one: nothing here consults the code under test.
use crate::ext;
use prost::Message;
use serde_json::Value;
use substrait::proto;
use substrait::proto::expression::{self as pe, literal::LiteralType, RexType};
use substrait::proto::extensions::{self as pext, simple_extension_declaration::MappingType};
use substrait::proto::r#type::{self as pt, Kind};
use substrait::proto::{Expression, NamedStruct, Plan, Rel, RelCommon, Type};

thread_local! {
    /// 0: plans are written in today's form; 1, 2: in the ways older writers wrote the same plan
    pub static OLDER: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}
/// whether a call's arguments go in the field older writers used
fn deprecated_args(e: &Value) -> bool {
    older() > 0 || e.get("depr").is_some_and(|d| d == 1) && q(e, "args").iter().all(|a| a.get("arghow").is_none())
}
fn older() -> u8 {
    OLDER.get()
}
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("no string {k} in {v}"))
}
pub fn i(v: &Value, k: &str) -> i64 {
    v[k].as_i64().or_else(|| v[k].as_str().and_then(|t| t.parse().ok())).unwrap_or_else(|| panic!("no int {k} in {v}"))
}
pub fn b(v: &Value, k: &str) -> bool {
    v[k].as_bool().unwrap_or_else(|| panic!("no bool {k} in {v}"))
}
/// TLC writes an empty sequence as [] and sequences as arrays.
pub fn q<'a>(v: &'a Value, k: &str) -> &'a Vec<Value> {
    v[k].as_array().unwrap_or_else(|| panic!("no array {k} in {v}"))
}
pub fn has(v: &Value, k: &str) -> bool {
    v.get(k).is_some()
}
pub fn chars(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
pub fn name(v: &Value) -> String {
    if has(v, "id") { s(v, "id").to_string() } else { chars(&v["cs"]) }
}
fn names(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(name).collect()
}
fn nullability(v: &Value) -> i32 {
    match s(v, "nu") {
        "R" => pt::Nullability::Required as i32,
        "N" => pt::Nullability::Nullable as i32,
        "U" => pt::Nullability::Unspecified as i32,
        "X" => 77,
        x => panic!("nullability {x}"),
    }
}

#[allow(deprecated)]
fn simple(n: &str, nullability: i32, tv: u32) -> Kind {
    macro_rules! k {
        ($v:ident, $t:ident) => {
            Kind::$v(pt::$t { nullability, type_variation_reference: tv })
        };
    }
    match n {
        "boolean" => k!(Bool, Boolean),
        "i8" => k!(I8, I8),
        "i16" => k!(I16, I16),
        "i32" => k!(I32, I32),
        "i64" => k!(I64, I64),
        "fp32" => k!(Fp32, Fp32),
        "fp64" => k!(Fp64, Fp64),
        "string" => k!(String, String),
        "binary" => k!(Binary, Binary),
        "timestamp" => k!(Timestamp, Timestamp),
        "timestamp_tz" => k!(TimestampTz, TimestampTz),
        "date" => k!(Date, Date),
        "time" => k!(Time, Time),
        "interval_year" => k!(IntervalYear, IntervalYear),
        "uuid" => k!(Uuid, Uuid),
        _ => panic!("simple type {n}"),
    }
}

pub fn ty(v: &Value) -> Type {
    let tv = v.get("tv").and_then(|x| x.as_u64()).unwrap_or(0) as u32;
    let kind = match s(v, "k") {
        "s" | "sv" => simple(s(v, "n"), nullability(v), tv),
        "list" => Kind::List(Box::new(pt::List {
            r#type: if s(&v["e"], "k") != "tgone" { Some(Box::new(ty(&v["e"]))) } else { None },
            type_variation_reference: tv,
            nullability: nullability(v),
        })),
        "map" => Kind::Map(Box::new(pt::Map {
            key: if s(&v["key"], "k") != "tgone" { Some(Box::new(ty(&v["key"]))) } else { None },
            value: if s(&v["val"], "k") != "tgone" { Some(Box::new(ty(&v["val"]))) } else { None },
            type_variation_reference: tv,
            nullability: nullability(v),
        })),
        "struct" => Kind::Struct(pt::Struct {
            types: q(v, "es").iter().map(ty).collect(),
            type_variation_reference: tv,
            nullability: nullability(v),
        }),
        "prec" => {
            let p = i(v, "p") as i32;
            let nu = nullability(v);
            match s(v, "n") {
                "precisiontimestamp" => Kind::PrecisionTimestamp(pt::PrecisionTimestamp { precision: p, nullability: nu, type_variation_reference: tv }),
                "precisiontimestamptz" => Kind::PrecisionTimestampTz(pt::PrecisionTimestampTz { precision: p, nullability: nu, type_variation_reference: tv }),
                "precisiontime" => Kind::PrecisionTime(pt::PrecisionTime { precision: p, nullability: nu, type_variation_reference: tv }),
                "interval_day" => Kind::IntervalDay(pt::IntervalDay {
                    precision: if p == -1 || p == 6 && older() > 0 { None } else { Some(p) },
                    nullability: nu,
                    type_variation_reference: tv,
                }),
                n => panic!("prec type {n}"),
            }
        }
        "udt" => Kind::UserDefined(pt::UserDefined {
            type_reference: i(v, "a") as u32,
            type_variation_reference: tv,
            nullability: nullability(v),
            type_parameters: q(v, "ps")
                .iter()
                .map(|p| pt::Parameter {
                    parameter: if has(p, "pt") {
                        Some(pt::parameter::Parameter::DataType(ty(&p["pt"])))
                    } else if has(p, "pi") {
                        Some(pt::parameter::Parameter::Integer(i(p, "pi")))
                    } else {
                        match s(p, "how") {
                            "none" => None,
                            "bool" => Some(pt::parameter::Parameter::Boolean(true)),
                            "null" => Some(pt::parameter::Parameter::Null(pbjson_types::Empty {})),
                            "str" => Some(pt::parameter::Parameter::String("x".into())),
                            "enum" => Some(pt::parameter::Parameter::Enum("x".into())),
                            h => panic!("param {h}"),
                        }
                    },
                })
                .collect(),
        }),
        "len" => {
            let (length, nu) = (i(v, "p") as i32, nullability(v));
            match s(v, "n") {
                "varchar" => Kind::Varchar(pt::VarChar { length, nullability: nu, type_variation_reference: tv }),
                "fixedchar" => Kind::FixedChar(pt::FixedChar { length, nullability: nu, type_variation_reference: tv }),
                "fixedbinary" => Kind::FixedBinary(pt::FixedBinary { length, nullability: nu, type_variation_reference: tv }),
                n => panic!("len type {n}"),
            }
        }
        "dec" => Kind::Decimal(pt::Decimal {
            scale: i(v, "sc") as i32,
            precision: i(v, "p") as i32,
            nullability: nullability(v),
            type_variation_reference: tv,
        }),
        #[allow(deprecated)]
        "udref" => Kind::UserDefinedTypeReference(i(v, "a") as u32),
        "tbad" => match s(v, "how") {
            "none" => return Type { kind: None },
            "alias" => Kind::Alias(pt::TypeAliasReference::default()),
            "func" => Kind::Func(Box::default()),
            h => panic!("tbad {h}"),
        },
        k => panic!("type kind {k}"),
    };
    Type { kind: Some(kind) }
}

fn pow10(n: i64) -> i128 {
    10i128.pow(n as u32)
}
fn stamp(v: &Value, d: i64) -> i64 {
    let (sec, f, p) = (i(v, "s"), i(v, "f") as i128, v.get("p").and_then(|x| x.as_i64()).unwrap_or(6));
    let f = if p == 12 { f * 1000 + i(v, "ps") as i128 } else { f };
    i64::try_from((d as i128 * 86400 + sec as i128) * pow10(p) + f).expect("stamp range")
}

#[allow(deprecated)]
pub fn literal(v: &Value) -> pe::Literal {
    let mut nullable = b(v, "nb");
    let lt = match s(v, "lk") {
        "bool" => LiteralType::Boolean(b(v, "b")),
        "int" => {
            let n: i64 = s(v, "num").parse().expect("int");
            match s(v, "w") {
                "i8" => LiteralType::I8(n as i32),
                "i16" => LiteralType::I16(n as i32),
                "i32" => LiteralType::I32(i32::try_from(n).unwrap()),
                "i64" => LiteralType::I64(n),
                w => panic!("{w}"),
            }
        }
        "flt" => match s(v, "w") {
            "fp32" => LiteralType::Fp32(s(v, "num").parse().expect("flt")),
            _ => LiteralType::Fp64(s(v, "num").parse().expect("flt")),
        },
        "str" => LiteralType::String(chars(&v["cs"])),
        "bin" => LiteralType::Binary(q(v, "bs").iter().map(|x| x.as_u64().unwrap() as u8).collect::<Vec<u8>>().into()),
        "date" => LiteralType::Date(i(v, "d") as i32),
        "time" => LiteralType::Time(i(v, "s") * 1_000_000 + i(v, "f")),
        "ts" => LiteralType::Timestamp(stamp(v, i(v, "d"))),
        "ptime" => LiteralType::PrecisionTime(pe::literal::PrecisionTime { precision: i(v, "p") as i32, value: stamp(v, 0) }),
        "pts" => LiteralType::PrecisionTimestamp(pe::literal::PrecisionTimestamp { precision: i(v, "p") as i32, value: stamp(v, i(v, "d")) }),
        "ptstz" => LiteralType::PrecisionTimestampTz(pe::literal::PrecisionTimestamp { precision: i(v, "p") as i32, value: stamp(v, i(v, "d")) }),
        "iday" => {
            use pe::literal::interval_day_to_second::PrecisionMode as M;
            let p = i(v, "p");
            // microseconds used to be a field of their own, and before that the only unit
            if p == 6 && older() == 1 {
                return pe::Literal {
                    nullable,
                    type_variation_reference: 0,
                    literal_type: Some(LiteralType::IntervalDayToSecond(pe::literal::IntervalDayToSecond {
                        days: i(v, "dd") as i32,
                        seconds: i(v, "ss") as i32,
                        subseconds: 0,
                        precision_mode: Some(M::Microseconds(i(v, "sub") as i32)),
                    })),
                };
            }
            let p = if p == 6 && older() == 2 { -1 } else { p };
            LiteralType::IntervalDayToSecond(pe::literal::IntervalDayToSecond {
                days: i(v, "dd") as i32,
                seconds: i(v, "ss") as i32,
                subseconds: i(v, "sub"),
                precision_mode: if p == -1 { None } else { Some(M::Precision(p as i32)) },
            })
        }
        "null" => {
            nullable = v.get("nlb").and_then(|x| x.as_bool()).unwrap_or(false);
            LiteralType::Null(ty(&v["nty"]))
        }
        // a value its own kind cannot denote, or a kind with no text form
        "raw" => {
            let n: i64 = s(v, "num").parse().unwrap();
            let p = v.get("p").and_then(|x| x.as_i64()).unwrap_or(0) as i32;
            match s(v, "rk") {
                "i8" => LiteralType::I8(n as i32),
                "i16" => LiteralType::I16(n as i32),
                "date" => LiteralType::Date(n as i32),
                "time" => LiteralType::Time(n),
                "timestamp" => LiteralType::Timestamp(n),
                "precisiontime" => LiteralType::PrecisionTime(pe::literal::PrecisionTime { precision: p, value: n }),
                "precisiontimestamp" => LiteralType::PrecisionTimestamp(pe::literal::PrecisionTimestamp { precision: p, value: n }),
                "precisiontimestamptz" => LiteralType::PrecisionTimestampTz(pe::literal::PrecisionTimestamp { precision: p, value: n }),
                k => panic!("raw {k}"),
            }
        }
        "nonfin" => {
            let x = match s(v, "num") {
                "nan" => f64::NAN,
                "inf" => f64::INFINITY,
                _ => f64::NEG_INFINITY,
            };
            if s(v, "w") == "fp32" { LiteralType::Fp32(x as f32) } else { LiteralType::Fp64(x) }
        }
        "lun" => match s(v, "uk") {
            "iyear" => LiteralType::IntervalYearToMonth(pe::literal::IntervalYearToMonth { years: 1, months: 2 }),
            "tstz" => LiteralType::TimestampTz(5),
            "uuid" => LiteralType::Uuid(vec![7u8; 16].into()),
            "dec" => LiteralType::Decimal(pe::literal::Decimal { value: vec![0u8; 16].into(), precision: 3, scale: 1 }),
            "fixedchar" => LiteralType::FixedChar("ab".into()),
            "varchar" => LiteralType::VarChar(pe::literal::VarChar { value: "ab".into(), length: 4 }),
            "fixedbin" => LiteralType::FixedBinary(vec![1u8].into()),
            "list" => LiteralType::List(pe::literal::List { values: vec![] }),
            "emptylist" => LiteralType::EmptyList(pt::List::default()),
            "map" => LiteralType::Map(pe::literal::Map { key_values: vec![] }),
            "struct" => LiteralType::Struct(pe::literal::Struct { fields: vec![] }),
            "udt" => LiteralType::UserDefined(pe::literal::UserDefined::default()),
            k => panic!("lun {k}"),
        },
        "lnone" => return pe::Literal { literal_type: None, nullable, type_variation_reference: 0 },
        k => panic!("literal kind {k}"),
    };
    pe::Literal { literal_type: Some(lt), nullable, type_variation_reference: v.get("tv").and_then(|x| x.as_u64()).unwrap_or(0) as u32 }
}

fn rex(r: RexType) -> Expression {
    Expression { rex_type: Some(r) }
}
pub fn field(n: i64) -> Expression {
    refseg(Some(pe::reference_segment::ReferenceType::StructField(Box::new(pe::reference_segment::StructField { field: n as i32, child: None }))))
}
fn refseg(t: Option<pe::reference_segment::ReferenceType>) -> Expression {
    rex(RexType::Selection(Box::new(pe::FieldReference {
        reference_type: Some(pe::field_reference::ReferenceType::DirectReference(pe::ReferenceSegment { reference_type: t })),
        root_type: Some(pe::field_reference::RootType::RootReference(pe::field_reference::RootReference {})),
    })))
}
fn there(e: &Value) -> Option<Expression> {
    (s(e, "k") != "xgone").then(|| expr(e))
}
fn arg(e: &Value) -> proto::FunctionArgument {
    if e.is_object() && has(e, "arghow") {
        return proto::FunctionArgument {
            arg_type: match s(e, "arghow") {
                "none" => None,
                "enum" => Some(proto::function_argument::ArgType::Enum("YEAR".into())),
                "type" => Some(proto::function_argument::ArgType::Type(ty(&serde_json::json!({"k":"s","n":"i64","nu":"R"})))),
                h => panic!("arg {h}"),
            },
        };
    }
    proto::FunctionArgument { arg_type: Some(proto::function_argument::ArgType::Value(expr(e))) }
}
#[allow(deprecated)]
pub fn expr(e: &Value) -> Expression {
    match s(e, "k") {
        "ref" => field(i(e, "i")),
        "lit" => rex(RexType::Literal(literal(e))),
        "call" => rex(RexType::ScalarFunction(pe::ScalarFunction {
            function_reference: i(e, "f") as u32,
            arguments: if deprecated_args(e) { vec![] } else { q(e, "args").iter().map(arg).collect() },
            options: fn_options(e),
            output_type: q(e, "ty").first().map(ty),
            args: if deprecated_args(e) { q(e, "args").iter().map(expr).collect() } else { vec![] },
        })),
        "cast" => rex(RexType::Cast(Box::new(pe::Cast {
            r#type: if s(&e["to"], "k") != "tgone" { Some(ty(&e["to"])) } else { None },
            input: if s(&e["e"], "k") != "xgone" { Some(Box::new(expr(&e["e"]))) } else { None },
            failure_behavior: i(e, "fb") as i32,
        }))),
        "ite" => rex(RexType::IfThen(Box::new(pe::IfThen {
            ifs: q(e, "br")
                .iter()
                .map(|x| pe::if_then::IfClause { r#if: there(&x["c"]), then: there(&x["t"]) })
                .collect(),
            r#else: there(&e["els"]).map(Box::new),
        }))),
        "xbad" => match s(e, "how") {
            "empty" => Expression { rex_type: None },
            "switch" => rex(RexType::SwitchExpression(Box::default())),
            "singular" => rex(RexType::SingularOrList(Box::default())),
            "multi" => rex(RexType::MultiOrList(Default::default())),
            "window" => rex(RexType::WindowFunction(Default::default())),
            "subquery" => rex(RexType::Subquery(Box::default())),
            "nested" => rex(RexType::Nested(Default::default())),
            "enum" => rex(RexType::Enum(Default::default())),
            "dynparam" => rex(RexType::DynamicParameter(Default::default())),
            "refnoseg" => refseg(None),
            "refmap" => refseg(Some(pe::reference_segment::ReferenceType::MapKey(Box::default()))),
            "reflist" => refseg(Some(pe::reference_segment::ReferenceType::ListElement(Box::default()))),
            "refchild" => refseg(Some(pe::reference_segment::ReferenceType::StructField(Box::new(pe::reference_segment::StructField {
                field: 1,
                child: Some(Box::new(pe::ReferenceSegment {
                    reference_type: Some(pe::reference_segment::ReferenceType::StructField(Box::default())),
                })),
            })))),
            "refempty" => rex(RexType::Selection(Box::new(pe::FieldReference {
                reference_type: None,
                root_type: Some(pe::field_reference::RootType::RootReference(pe::field_reference::RootReference {})),
            }))),
            "refmask" => rex(RexType::Selection(Box::new(pe::FieldReference {
                reference_type: Some(pe::field_reference::ReferenceType::MaskedReference(Default::default())),
                root_type: Some(pe::field_reference::RootType::RootReference(pe::field_reference::RootReference {})),
            }))),
            "refnoroot" => {
                let mut x = field(0);
                if let Some(RexType::Selection(f)) = x.rex_type.as_mut() {
                    f.root_type = None;
                }
                x
            }
            "refouter" => {
                let mut x = field(0);
                if let Some(RexType::Selection(f)) = x.rex_type.as_mut() {
                    f.root_type = Some(pe::field_reference::RootType::OuterReference(pe::field_reference::OuterReference { steps_out: 1 , ..Default::default()}));
                }
                x
            }
            "refexpr" => {
                let mut x = field(0);
                if let Some(RexType::Selection(f)) = x.rex_type.as_mut() {
                    f.root_type = Some(pe::field_reference::RootType::Expression(Box::new(field(0))));
                }
                x
            }
            h => panic!("xbad {h}"),
        },
        k => panic!("expr kind {k}"),
    }
}

// ---- extension items --------------------------------------------------------
pub fn any(ns: usize, item: &Value) -> pbjson_types::Any {
    if has(item, "xu") {
        let (u, v) = match s(item, "how") {
            "unknown" => ("type.test/nobody.Knows".to_string(), vec![1, 2, 3]),
            "empty" => (String::new(), vec![]),
            "badbytes" => (ext::type_url(ns, "Alpha"), vec![0xff, 0x00]),
            // a type registered, but in another namespace
            "otherns" => (ext::type_url((ns + 1) % 4, "Alpha"), b"{\"pos\":[],\"named\":[],\"cols\":[]}".to_vec()),
            "cols" => (ext::type_url(ns, "Alpha"), b"{\"pos\":[],\"named\":[],\"cols\":[{\"e\":\"120612041a020800\"}]}".to_vec()),
            h => panic!("xu {h}"),
        };
        return pbjson_types::Any { type_url: u, value: v.into() };
    }
    let n = name(&item["xn"]);
    let raw = ext::payload(&xargs(&item["xa"]));
    if crate::std_json::TYPED.get() {
        let (type_url, value) = crate::std_json::typed(ns, raw);
        return pbjson_types::Any { type_url, value: value.into() };
    }
    pbjson_types::Any { type_url: ext::type_url(ns, &n), value: raw.into() }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(t: &str) -> Vec<u8> {
    (0..t.len() / 2).map(|k| u8::from_str_radix(&t[2 * k..2 * k + 2], 16).unwrap_or(0)).collect()
}
/// Abstract arguments -> the canonical payload of the reference handlers.
pub fn xval(v: &Value) -> Value {
    use serde_json::json;
    match s(v, "xk") {
        "str" => json!({"s": chars(&v["cs"])}),
        "int" => json!({"i": s(v, "num").parse::<i64>().expect("xint").to_string()}),
        "flt" => json!({"f": hex(&s(v, "num").parse::<f64>().expect("xflt").to_bits().to_be_bytes())}),
        "bool" => json!({"b": b(v, "b")}),
        "null" => json!({"z": 0}),
        "enum" => json!({"n": s(v, "en")}),
        "tup" => json!({"t": q(v, "xs").iter().map(xval).collect::<Vec<_>>()}),
        "expr" => json!({"e": hex(&expr(&v["e"]).encode_to_vec())}),
        "xerr" => match s(v, "how") {
            "err" => json!({"err": 0}),
            "nan" => json!({"f": hex(&f64::NAN.to_bits().to_be_bytes())}),
            _ => json!({"f": hex(&f64::INFINITY.to_bits().to_be_bytes())}),
        },
        k => panic!("xval {k}"),
    }
}
pub fn xargs(a: &Value) -> Value {
    use serde_json::json;
    json!({
        "pos": q(a, "pos").iter().map(xval).collect::<Vec<_>>(),
        "named": q(a, "named").iter().map(|p| json!([name(&p["n"]), xval(&p["v"])])).collect::<Vec<_>>(),
        "cols": q(a, "cols").iter().map(|c| if s(c, "ck") == "n" {
            json!({"n": name(&c["n"]), "t": hex(&ty(&c["t"]).encode_to_vec())})
        } else { json!({"e": hex(&expr(&c["e"]).encode_to_vec())}) }).collect::<Vec<_>>(),
    })
}

// ---- relations ----------------------------------------------------------------
fn common(r: &Value) -> Option<RelCommon> {
    use proto::rel_common::{Direct, Emit, EmitKind};
    let em = &r["em"];
    let emit_kind = match s(em, "m") {
        "none" => None,
        "dir" if older() == 1 => None,
        "dir" if older() == 2 => return None,
        "dir" => Some(EmitKind::Direct(Direct {})),
        "map" => Some(EmitKind::Emit(Emit { output_mapping: q(em, "is").iter().map(|x| x.as_i64().unwrap() as i32).collect() })),
        "nocommon" => return None,
        m => panic!("emit {m}"),
    };
    Some(RelCommon {
        emit_kind,
        advanced_extension: has(r, "cadv").then(foreign),
        hint: has(r, "hint").then(|| proto::rel_common::Hint { alias: "h".into(), ..Default::default() }),
    })
}
/// an enhancement no registry knows
fn foreign() -> pext::AdvancedExtension {
    pext::AdvancedExtension { enhancement: Some(pbjson_types::Any { type_url: "/other.Thing".into(), value: vec![8, 1].into() }), optimization: vec![] }
}
fn advanced(r: &Value) -> Option<pext::AdvancedExtension> {
    let (e, o) = (q(r, "enh"), q(r, "opt"));
    if e.is_empty() && o.is_empty() && !r.get("advempty").is_some() {
        return None;
    }
    Some(pext::AdvancedExtension {
        enhancement: e.first().map(|x| any(2, x)),
        optimization: o.iter().map(|x| any(3, x)).collect(),
    })
}
fn schema(cols: &Value, nullable: bool, variation: u32) -> NamedStruct {
    let c = cols.as_array().unwrap();
    NamedStruct {
        names: c.iter().filter(|x| !has(x, "nobs")).map(|x| name(&x["n"])).collect(),
        r#struct: Some(pt::Struct {
            types: c.iter().filter(|x| !has(x, "tbadc")).map(|x| ty(&x["t"])).collect(),
            type_variation_reference: variation,
            nullability: if nullable { pt::Nullability::Nullable } else { pt::Nullability::Required } as i32,
        }),
    }
}
fn fetch_val(v: &Value) -> Option<Box<Expression>> {
    Some(Box::new(expr(&v["e"])))
}
pub fn rel(r: &Value) -> Rel {
    use proto::rel::RelType as T;
    let x = &r["x"];
    let kids: Vec<Option<Box<Rel>>> = if has(r, "ins") {
        q(r, "ins").iter().map(|c| if s(c, "k") == "gone" { None } else { Some(Box::new(rel(c))) }).collect()
    } else {
        vec![]
    };
    let kid = |n: usize| kids.get(n).cloned().flatten();
    let one = |v: &Value| v.as_array().unwrap().first().map(|e| Box::new(expr(e)));
    let t = match s(r, "k") {
        "read" | "virt" | "extread" => {
            use proto::read_rel as rr;
            let read_type = match s(r, "k") {
                "read" => match x.get("rthow").and_then(|h| h.as_str()) {
                    None => Some(rr::ReadType::NamedTable(rr::NamedTable { names: names(&x["tn"]), advanced_extension: has(x, "tadv").then(foreign) })),
                    Some("none") => None,
                    Some("local") => Some(rr::ReadType::LocalFiles(Default::default())),
                    Some("iceberg") => Some(rr::ReadType::IcebergTable(Default::default())),
                    Some(h) => panic!("{h}"),
                },
                // rows used to be literals
                "virt" if older() > 0 && q(x, "rows").iter().all(|row| row.as_array().unwrap().iter().all(|c| s(c, "k") == "lit")) => Some(rr::ReadType::VirtualTable(rr::VirtualTable {
                    values: q(x, "rows").iter().map(|row| pe::literal::Struct { fields: row.as_array().unwrap().iter().map(literal).collect() }).collect(),
                    ..Default::default()
                })),
                "virt" => Some(rr::ReadType::VirtualTable(rr::VirtualTable {
                    expressions: q(x, "rows").iter().map(|row| pe::nested::Struct { fields: row.as_array().unwrap().iter().map(expr).collect() }).collect(),
                    ..Default::default()
                })),
                _ => Some(rr::ReadType::ExtensionTable(rr::ExtensionTable { detail: q(x, "det").first().map(|d| any(1, d)) })),
            };
            T::Read(Box::new(proto::ReadRel {
                common: common(r),
                base_schema: if has(x, "noschema") { None } else { Some(schema(&x["cols"], has(x, "snull"), x.get("stv").and_then(|v| v.as_u64()).unwrap_or(0) as u32)) },
                filter: x.get("flt").map(|f| one(f)).unwrap_or(None),
                read_type,
                advanced_extension: advanced(r),
                best_effort_filter: has(x, "beflt").then(|| Box::new(rex(RexType::Literal(pe::Literal { literal_type: Some(LiteralType::Boolean(true)), nullable: false, type_variation_reference: 0 })))),
                projection: has(x, "proj").then(|| pe::MaskExpression {
                    select: Some(pe::mask_expression::StructSelect { struct_items: vec![pe::mask_expression::StructItem { field: 1, child: None }] }),
                    maintain_singular_struct: false,
                }),
                ..Default::default()
            }))
        }
        "filter" => T::Filter(Box::new(proto::FilterRel { common: common(r), input: kid(0), condition: one(&x["c"]), advanced_extension: advanced(r) })),
        "proj" => T::Project(Box::new(proto::ProjectRel {
            common: common(r),
            input: kid(0),
            expressions: q(x, "es").iter().map(expr).collect(),
            advanced_extension: advanced(r),
        })),
        "agg" => {
            use proto::aggregate_rel as ar;
            #[allow(deprecated)]
            T::Aggregate(Box::new(proto::AggregateRel {
                common: common(r),
                input: kid(0),
                grouping_expressions: if older() > 0 { vec![] } else { q(x, "ge").iter().map(expr).collect() },
                groupings: q(x, "gs")
                    .iter()
                    .map(|g| ar::Grouping {
                        // each set used to hold its own expressions
                        grouping_expressions: if older() > 0 { g.as_array().unwrap().iter().map(|n| expr(&x["ge"][n.as_u64().unwrap() as usize])).collect() } else { vec![] },
                        expression_references: if older() > 0 { vec![] } else { g.as_array().unwrap().iter().map(|n| n.as_u64().unwrap() as u32).collect() },
                    })
                    .collect(),
                measures: q(x, "ms")
                    .iter()
                    .map(|m| ar::Measure {
                        measure: m.as_array().unwrap().first().map(|e| {
                            let p = |k: &str| x.get(k).and_then(|v| v.as_i64()).unwrap_or(0) as i32;
                            proto::AggregateFunction {
                            function_reference: i(e, "f") as u32,
                            arguments: if deprecated_args(e) { vec![] } else { q(e, "args").iter().map(arg).collect() },
                            options: fn_options(e),
                            output_type: q(e, "ty").first().map(ty),
                            phase: p("phase"),
                            sorts: if has(x, "msorts") { vec![proto::SortField { expr: Some(field(0)), sort_kind: Some(proto::sort_field::SortKind::Direction(1)) }] } else { vec![] },
                            invocation: p("invocation"),
                            args: if deprecated_args(e) { q(e, "args").iter().map(expr).collect() } else { vec![] },
                        }}),
                        filter: x.get("mflt").and_then(|f| f.as_array().unwrap().first()).map(expr),
                    })
                    .collect(),
                advanced_extension: advanced(r),
            }))
        }
        "sort" => {
            use proto::sort_field::SortKind;
            T::Sort(Box::new(proto::SortRel {
                common: common(r),
                input: kid(0),
                sorts: q(x, "fs")
                    .iter()
                    .map(|f| proto::SortField {
                        expr: q(f, "e").first().map(expr),
                        sort_kind: match s(f, "d") {
                            "AscNullsFirst" => Some(SortKind::Direction(1)),
                            "AscNullsLast" => Some(SortKind::Direction(2)),
                            "DescNullsFirst" => Some(SortKind::Direction(3)),
                            "DescNullsLast" => Some(SortKind::Direction(4)),
                            "Clustered" => Some(SortKind::Direction(5)),
                            "?unspec" => Some(SortKind::Direction(0)),
                            "?unknown" => Some(SortKind::Direction(99)),
                            "?neg" => Some(SortKind::Direction(-1)),
                            "?none" => None,
                            "?fn" => Some(SortKind::ComparisonFunctionReference(3)),
                            d => panic!("sort {d}"),
                        },
                    })
                    .collect(),
                advanced_extension: advanced(r),
            }))
        }
        "fetch" => {
            use proto::fetch_rel::{CountMode, OffsetMode};
            let lim = q(x, "lim").first();
            let off = q(x, "off").first();
            // counts used to be plain numbers
            let plain = |v: &Value| -> Option<i64> {
                if s(v, "fv") == "n" {
                    return s(v, "num").parse().ok();
                }
                let e = &v["e"];
                (older() > 0 && s(e, "k") == "lit" && s(e, "lk") == "int" && s(e, "w") == "i64" && e["nb"] == false).then(|| s(e, "num").parse().unwrap())
            };
            #[allow(deprecated)]
            T::Fetch(Box::new(proto::FetchRel {
                common: common(r),
                input: kid(0),
                advanced_extension: advanced(r),
                offset_mode: off.map(|v| {
                    plain(v).map_or_else(|| OffsetMode::OffsetExpr(fetch_val(v).unwrap()), OffsetMode::Offset)
                }),
                count_mode: match lim {
                    None if older() == 2 => Some(CountMode::Count(-1)), // how no limit used to be written
                    _ => lim.map(|v| plain(v).map_or_else(|| CountMode::CountExpr(fetch_val(v).unwrap()), CountMode::Count)),
                },
            }))
        }
        "join" => T::Join(Box::new(proto::JoinRel {
            common: common(r),
            left: kid(0),
            right: kid(1),
            expression: one(&x["c"]),
            post_join_filter: one(&x["pf"]),
            r#type: join_type(s(x, "jt")),
            advanced_extension: advanced(r),
        })),
        "cross" => T::Cross(Box::new(proto::CrossRel { common: common(r), left: kid(0), right: kid(1), advanced_extension: advanced(r) })),
        "set" => T::Set(proto::SetRel {
            common: common(r),
            inputs: kids.iter().filter_map(|k| k.as_deref().cloned()).collect(),
            op: set_op(s(x, "op")),
            advanced_extension: advanced(r),
        }),
        "xrel" => {
            let detail = if has(&x["item"], "nodetail") { None } else { Some(any(0, &x["item"])) };
            let common = common(r);
            match s(x, "xt") {
                "leaf" => T::ExtensionLeaf(proto::ExtensionLeafRel { common, detail }),
                "single" => T::ExtensionSingle(Box::new(proto::ExtensionSingleRel { common, input: kid(0), detail })),
                _ => T::ExtensionMulti(proto::ExtensionMultiRel { common, inputs: kids.iter().filter_map(|k| k.as_deref().cloned()).collect(), detail }),
            }
        }
        "unsup" => match s(r, "how") {
            "none" => return Rel { rel_type: None },
            "write" => T::Write(Box::default()),
            "ddl" => T::Ddl(Box::default()),
            "update" => T::Update(Box::default()),
            "hashjoin" => T::HashJoin(Box::default()),
            "mergejoin" => T::MergeJoin(Box::default()),
            "nlj" => T::NestedLoopJoin(Box::default()),
            "window" => T::Window(Box::default()),
            "exchange" => T::Exchange(Box::default()),
            "expand" => T::Expand(Box::default()),
            "reference" => T::Reference(Default::default()),
            h => panic!("unsup {h}"),
        },
        k => panic!("rel kind {k}"),
    };
    Rel { rel_type: Some(t) }
}
pub fn join_type(t: &str) -> i32 {
    use proto::join_rel::JoinType as J;
    match t {
        "Inner" => J::Inner as i32,
        "Left" => J::Left as i32,
        "Right" => J::Right as i32,
        "Outer" => J::Outer as i32,
        "LeftSemi" => J::LeftSemi as i32,
        "LeftAnti" => J::LeftAnti as i32,
        "LeftSingle" => J::LeftSingle as i32,
        "LeftMark" => J::LeftMark as i32,
        "RightSemi" => J::RightSemi as i32,
        "RightAnti" => J::RightAnti as i32,
        "RightSingle" => J::RightSingle as i32,
        "RightMark" => J::RightMark as i32,
        "?unspec" => 0,
        "?unknown" => 999,
        "?neg" => -1,
        t => panic!("join {t}"),
    }
}
fn set_op(t: &str) -> i32 {
    use proto::set_rel::SetOp as S;
    match t {
        "UnionAll" => S::UnionAll as i32,
        "UnionDistinct" => S::UnionDistinct as i32,
        "IntersectionPrimary" => S::IntersectionPrimary as i32,
        "IntersectionMultiset" => S::IntersectionMultiset as i32,
        "IntersectionMultisetAll" => S::IntersectionMultisetAll as i32,
        "MinusPrimary" => S::MinusPrimary as i32,
        "MinusPrimaryAll" => S::MinusPrimaryAll as i32,
        "MinusMultiset" => S::MinusMultiset as i32,
        "?unspec" => 0,
        "?unknown" => 999,
        "?neg" => -1,
        t => panic!("set {t}"),
    }
}

/// free text: a string, or the pieces of one
fn txt(v: &Value) -> String {
    match v {
        Value::String(t) => t.clone(),
        Value::Array(a) => a.iter().map(txt).collect(),
        v => char::from_u32(v["u"].as_u64().expect("text") as u32).expect("char").to_string(),
    }
}
fn decl(e: &Value) -> pext::SimpleExtensionDeclaration {
    let n = if b(e, "hs") { format!("{}:{}", txt(&e["nm"]), txt(&e["sg"])) } else { txt(&e["nm"]) };
    let (a, u) = (i(e, "a") as u32, i(e, "u") as u32);
    #[allow(deprecated)]
    let m = match s(e, "kd") {
        "f" => Some(MappingType::ExtensionFunction(pext::simple_extension_declaration::ExtensionFunction {
            extension_urn_reference: u,
            function_anchor: a,
            name: n,
            ..Default::default()
        })),
        "t" => Some(MappingType::ExtensionType(pext::simple_extension_declaration::ExtensionType {
            extension_urn_reference: u,
            type_anchor: a,
            name: n,
            ..Default::default()
        })),
        "v" => Some(MappingType::ExtensionTypeVariation(pext::simple_extension_declaration::ExtensionTypeVariation {
            extension_urn_reference: u,
            type_variation_anchor: a,
            name: n,
            ..Default::default()
        })),
        _ => None,
    };
    pext::SimpleExtensionDeclaration { mapping_type: m }
}
pub fn plan(p: &Value) -> Plan {
    Plan {
        version: q(p, "ver").first().map(|v| proto::Version {
            major_number: i(v, "maj") as u32,
            minor_number: i(v, "min") as u32,
            patch_number: i(v, "pat") as u32,
            git_hash: txt(&v["git"]),
            producer: txt(&v["prod"]),
        }),
        extension_urns: q(&p["tbl"], "urns")
            .iter()
            .map(|u| pext::SimpleExtensionUrn { extension_urn_anchor: i(u, "ua") as u32, urn: txt(&u["ut"]) })
            .collect(),
        extensions: q(&p["tbl"], "exts").iter().map(decl).collect(),
        relations: q(p, "roots")
            .iter()
            .map(|r| proto::PlanRel {
                rel_type: match s(r, "rk") {
                    "none" => None,
                    "rel" => Some(proto::plan_rel::RelType::Rel(rel(&r["rel"]))),
                    _ => Some(proto::plan_rel::RelType::Root(proto::RelRoot {
                        input: if s(&r["rel"], "k") == "gone" { None } else { Some(rel(&r["rel"])) },
                        names: names(&r["names"]),
                    })),
                },
            })
            .collect(),
        advanced_extensions: has(p, "padv").then(foreign),
        expected_type_urls: if has(p, "urls") { vec!["/a.B".into()] } else { vec![] },
        type_aliases: if has(p, "aliases") { vec![Default::default()] } else { vec![] },
        parameter_bindings: if has(p, "binds") { vec![proto::DynamicParameterBinding { parameter_anchor: 1, value: Some(pe::Literal::default()) }] } else { vec![] },
        ..Default::default()
    }
}
fn fn_options(e: &Value) -> Vec<proto::FunctionOption> {
    if !has(e, "opts") {
        return vec![];
    }
    let t = |v: &Value| v.as_str().unwrap().to_string();
    q(e, "opts").iter().map(|o| proto::FunctionOption { name: t(&o["n"]), preference: q(o, "ps").iter().map(t).collect() }).collect()
}
